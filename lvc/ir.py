"""Parser for the subset of textual LLVM IR that clang emits for this project."""
import re, struct
from fractions import Fraction


class IRError(Exception):
    pass


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<glob>@(?:"[^"]+"|[\w.$\-]+))
 | (?P<loc>%(?:"[^"]+"|[\w.$\-]+))
 | (?P<attr>\#\d+)
 | (?P<meta>![\w.]*)
 | (?P<hex>0x[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<word>[A-Za-z_][\w.\-]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise IRError('cannot tokenize: ' + s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


PTR = ('ptr',)
DBL = ('double',)
FLT = ('float',)
VOID = ('void',)


class P:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def accept(self, s):
        if self.peek() == s and self.kind() != 'str':
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError('expected %s got %s in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t)[:200]))

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
        elif x == 'void':
            t = VOID
        elif x == 'double':
            t = DBL
        elif x == 'float':
            t = FLT
        elif x in ('metadata', 'label', 'token', 'half', 'fp128', 'x86_fp80'):
            t = (x,)
        elif re.fullmatch(r'i\d+', x):
            t = ('i', int(x[1:]))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                t = self.structbody(True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x == '{':
            t = self.structbody(False)
        elif x[0] == '%':
            t = ('named', x[1:].strip('"'))
        else:
            raise IRError('type? ' + x)
        # function type
        if self.peek() == '(' and self.kind() == 'p':
            save = self.i
            # only when followed by types or ... and )
            depth = 0
            j = self.i
            while True:
                if self.t[j][1] == '(' and self.t[j][0] == 'p':
                    depth += 1
                if self.t[j][1] == ')' and self.t[j][0] == 'p':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            inner = self.t[self.i + 1:j]
            if all(k in ('word', 'p', 'num', 'dots', 'loc') for k, _ in inner):
                self.i = j + 1
                t = ('fn', t)
            else:
                self.i = save
        return t

    def structbody(self, packed):
        fs = []
        if self.accept('}'):
            return ('st', (), packed)
        while True:
            fs.append(self.type())
            if self.accept('}'):
                break
            self.expect(',')
        return ('st', tuple(fs), packed)

    ATTRS1 = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'signext', 'zeroext',
              'inreg', 'returned', 'immarg', 'writable', 'dead_on_unwind', 'swiftself', 'nofree', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'allocptr', 'inrange'}

    def attrs(self):
        while True:
            x = self.peek()
            if x in self.ATTRS1:
                self.i += 1
            elif x == 'align' and self.kind() == 'word':
                self.i += 1
                if self.accept('('):
                    self.next()
                    self.expect(')')
                else:
                    self.next()
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'memory', 'range', 'nofpclass', 'captures', 'initializes', 'allocsize'):
                self.i += 1
                self.skip_paren()
            elif self.kind() == 'attr' or self.kind() == 'str':
                self.i += 1
            else:
                return

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def value(self, ty):
        k, x = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('L', x[1:].strip('"'))
        if k == 'glob':
            return ('G', x[1:].strip('"'))
        if k == 'hex':
            bits = int(x, 16)
            return ('F', struct.unpack('>d', struct.pack('>Q', bits))[0])
        if k == 'num':
            if ty[0] in ('double', 'float'):
                return ('F', float(x))
            return ('I', int(x))
        if x == 'true':
            return ('I', 1)
        if x == 'false':
            return ('I', 0)
        if x == 'null':
            return ('N',)
        if x in ('undef', 'poison'):
            return ('U', ty)
        if x == 'zeroinitializer':
            return ('Z', ty)
        if x == 'none':
            return ('N',)
        if k == 'str':
            return ('S', x)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            if self.accept('inrange'):
                self.skip_paren()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.value(PTR)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('GEP', bt, base, idx)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            ft = self.type()
            v = self.value(ft)
            self.expect('to')
            tt = self.type()
            self.expect(')')
            return ('CAST', x, ft, v, tt)
        if x in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            ft = self.type()
            a = self.value(ft)
            self.expect(',')
            self.type()
            b = self.value(ft)
            self.expect(')')
            return ('BIN', x, ft, a, b)
        if x == '[' or x == '{' or x == '<':
            if x == '<' and self.peek() == '{':
                self.next()
                x = '<{'
            close = {'[': ']', '{': '}', '<': '>', '<{': '}'}[x]
            els = []
            if not self.accept(close):
                while True:
                    et = self.type()
                    els.append((et, self.value(et)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if x == '<{':
                self.expect('>')
            return ('AGG', ty, els)
        if x == 'dso_local_equivalent' or x == 'no_cfi':
            return self.value(ty)
        if x == 'asm':
            # asm sideeffect "..", "..."
            while self.kind() != 'str':
                self.next()
            s = self.next()
            self.expect(',')
            self.next()
            return ('ASM', s)
        raise IRError('value? %s in %s' % (x, ' '.join(q[1] for q in self.t)[:300]))

    def tval(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Func:
    def __init__(self):
        self.name = None
        self.params = []
        self.blocks = {}
        self.order = []
        self.ret = None
        self.loops = None


class Module:
    def __init__(self, text):
        self.structs = {}
        self.gtext = {}
        self.ftext = {}
        self.funcs = {}
        self.aliases = {}
        self._sz = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, body = l.split(' = type ', 1)
                nm = nm[1:].strip('"')
                if body.strip() == 'opaque':
                    self.structs[nm] = ('st', (), False)
                else:
                    self.structs[nm] = P(self, tokenize(body)).type()
            elif l.startswith('@'):
                m = re.match(r'@("[^"]+"|[\w.$\-]+) = (.*)$', l)
                self.gtext[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('define '):
                m = re.search(r'@("[^"]+"|[\w.$\-]+)\(', l)
                nm = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.ftext[nm] = (l, lines[i + 1:j])
                i = j
            i += 1

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.structs[t[1]]
        return t

    def size_align(self, t):
        r = self._sz.get(t)
        if r:
            return r
        k = t[0]
        if k == 'named':
            r = self.size_align(self.resolve(t))
        elif k == 'i':
            b = (t[1] + 7) // 8
            p = 1
            while p < b:
                p *= 2
            r = (p if t[1] != 1 else 1, min(p, 16))
        elif k == 'double':
            r = (8, 8)
        elif k == 'float':
            r = (4, 4)
        elif k in ('ptr', 'fn'):
            r = (8, 8)
        elif k == 'x86_fp80':
            r = (16, 16)
        elif k == 'arr':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif k == 'st':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        else:
            raise IRError('size of ' + str(t))
        self._sz[t] = r
        return r

    def size(self, t):
        return self.size_align(t)[0]

    def field(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise IRError('field')

    # ---- functions
    def func(self, name):
        f = self.funcs.get(name)
        if f is None and name in self.ftext:
            f = self.funcs[name] = self._func(name)
        return f

    def _func(self, name):
        head, lines = self.ftext[name]
        f = Func()
        f.name = name
        h = re.match(r'define (.*?)@("[^"]+"|[\w.$\-]+)\(', head)
        toks = tokenize(head[h.end() - 1:])
        p = P(self, toks)
        p.expect('(')
        idx = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')')
                    break
                t = p.type()
                p.attrs()
                if p.kind() == 'loc':
                    nm = p.next()[1:].strip('"')
                else:
                    nm = str(idx)
                idx += 1
                f.params.append((t, nm))
                if p.accept(')'):
                    break
                p.expect(',')
        # entry label = number of params, when unnamed
        cur = str(len(f.params))
        first = True
        blk = []
        # join switch / landingpad / invoke continuation lines
        joined = []
        buf = None
        for l in lines:
            if not l.strip():
                continue
            if l[0] != ' ' :
                if buf is not None:
                    joined.append(buf)
                    buf = None
                joined.append(l)
                continue
            if buf is None:
                buf = l
            else:
                if l.startswith('    ') or l.strip().startswith(']') :
                    buf += ' ' + l.strip()
                    continue
                joined.append(buf)
                buf = l
        if buf is not None:
            joined.append(buf)
        for l in joined:
            if l[0] != ' ':
                m = re.match(r'("[^"]+"|[\w.$\-]+):', l)
                lab = m.group(1).strip('"')
                if first and not blk:
                    cur = lab
                else:
                    f.blocks[cur] = blk
                    f.order.append(cur)
                    cur = lab
                blk = []
                first = False
                continue
            first = False
            blk.append(self.instr(l))
        f.blocks[cur] = blk
        f.order.append(cur)
        self._loops(f)
        return f

    def _loops(self, f):
        # natural loop headers by DFS back edges (reducible CFGs)
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            op = t[0]
            if op == 'br':
                s = [t[2]]
            elif op == 'cbr':
                s = [t[3], t[4]]
            elif op == 'switch':
                s = [t[4]] + [l for _, l in t[5]]
            elif op == 'invoke':
                s = [t[6], t[7]]
            else:
                s = []
            succ[b] = s
        f.succ = succ
        color = {}
        heads = {}
        stack = [(f.order[0], iter(succ[f.order[0]]))]
        color[f.order[0]] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 0:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
                elif c == 1:
                    heads.setdefault(s, set()).add(b)
            else:
                color[b] = 2
                stack.pop()
        pred = {}
        for b, ss in succ.items():
            for s in ss:
                pred.setdefault(s, []).append(b)
        bodies = {}
        for h, latches in heads.items():
            body = {h}
            w = list(latches)
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(pred.get(x, []))
            bodies[h] = body
        f.heads = heads
        f.bodies = bodies

    FM = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}

    def instr(self, l):
        try:
            return self._instr(l)
        except (IndexError, KeyError, ValueError, TypeError) as e:
            raise IRError('bad instr %s (%r)' % (l, e))

    def _instr(self, l):
        p = P(self, tokenize(l))
        res = None
        if p.kind() == 'loc' and p.t[1][1] == '=':
            res = p.next()[1:].strip('"')
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'and', 'or', 'xor'):
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.add(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('bin', res, op, t, a, b, fl)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in self.FM:
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('fbin', res, op, t, a, b)
        if op == 'fneg':
            while p.peek() in self.FM:
                p.next()
            t = p.type()
            return ('fneg', res, t, p.value(t))
        if op == 'icmp':
            c = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return ('icmp', res, c, t, a, p.value(t))
        if op == 'fcmp':
            while p.peek() in self.FM:
                p.next()
            c = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return ('fcmp', res, c, t, a, p.value(t))
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast',
                  'ptrtoint', 'inttoptr'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect('to')
            return ('cast', res, op, t, v, p.type())
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            p.expect(',')
            p.type()
            return ('load', res, t, p.value(PTR))
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            return ('store', None, t, v, p.value(PTR))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            p.type()
            base = p.value(PTR)
            idx = []
            while p.accept(','):
                if p.kind() == 'meta':
                    break
                it = p.type()
                idx.append((it, p.value(it)))
            return ('gep', res, bt, base, idx)
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            n = None
            if p.accept(','):
                if p.peek() != 'align':
                    nt = p.type()
                    n = p.value(nt)
            return ('alloca', res, t, n)
        if op == 'phi':
            while p.peek() in self.FM:
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                b = p.next()[1:].strip('"')
                p.expect(']')
                inc[b] = v
                if not p.accept(','):
                    break
            return ('phi', res, t, inc)
        if op == 'select':
            while p.peek() in self.FM:
                p.next()
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            t2 = p.type()
            return ('select', res, t, c, a, p.value(t2))
        if op == 'br':
            if p.accept('label'):
                return ('br', None, p.next()[1:].strip('"'))
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()[1:].strip('"')
            p.expect(',')
            p.expect('label')
            return ('cbr', None, c, a, p.next()[1:].strip('"'))
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cs = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cs.append((cv[1], p.next()[1:].strip('"')))
            return ('switch', None, t, v, d, cs)
        if op == 'ret':
            t = p.type()
            if t == VOID:
                return ('ret', None, None, None)
            return ('ret', None, t, p.value(t))
        if op in ('call', 'invoke'):
            while p.peek() in self.FM or p.peek() in ('fastcc', 'ccc', 'coldcc'):
                p.next()
            p.attrs()
            t = p.type()
            if t[0] == 'fn':
                t = t[1]
            p.attrs()
            callee = p.value(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type()
                    p.attrs()
                    if at == ('metadata',):
                        # skip metadata operand
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            if x == '(':
                                d += 1
                            if x == ')':
                                d -= 1
                        args.append((at, ('U', at)))
                    else:
                        args.append((at, p.value(at)))
                    if p.accept(')'):
                        break
                    p.expect(',')
            if op == 'call':
                return ('call', res, t, callee, args)
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            n = p.next()[1:].strip('"')
            p.expect('unwind')
            p.expect('label')
            u = p.next()[1:].strip('"')
            return ('invoke', res, t, callee, args, None, n, u)
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'resume':
            t = p.type()
            return ('resume', None, t, p.value(t))
        if op == 'landingpad':
            t = p.type()
            cleanup = p.accept('cleanup')
            clauses = []
            while p.peek() in ('catch', 'filter'):
                k = p.next()
                ct = p.type()
                clauses.append((k, p.value(ct)))
            return ('landingpad', res, t, cleanup, clauses)
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            ix = []
            while p.accept(','):
                if p.kind() == 'meta':
                    break
                ix.append(int(p.next()))
            return ('extractvalue', res, t, v, ix)
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            e = p.value(et)
            ix = []
            while p.accept(','):
                if p.kind() == 'meta':
                    break
                ix.append(int(p.next()))
            return ('insertvalue', res, t, v, et, e, ix)
        if op == 'freeze':
            t = p.type()
            return ('freeze', res, t, p.value(t))
        if op == 'atomicrmw':
            p.accept('volatile')
            o = p.next()
            p.type()
            a = p.value(PTR)
            p.expect(',')
            t = p.type()
            return ('atomicrmw', res, o, t, a, p.value(t))
        if op == 'fence':
            return ('fence', None)
        if op == 'extractelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            it = p.type()
            return ('extractelement', res, t, v, p.value(it))
        if op == 'insertelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            e = p.value(et)
            p.expect(',')
            it = p.type()
            return ('insertelement', res, t, v, e, p.value(it))
        return ('unsupported', res, l.strip())
