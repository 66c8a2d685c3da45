"""Parser for the textual LLVM-18 IR that clang emits for /repo's sources.

Functions are split eagerly and parsed lazily.  Only the subset clang emits at
-O0 (+sroa) for this code base is understood; anything else raises
Unsupported, which the callers report as *undecided*, never as a violation.
"""
import re, struct, subprocess


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   \s+
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![a-zA-Z0-9._]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<id>[a-zA-Z_][-a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token at %r' % s[i:i + 30])
        i = m.end()
        k = m.lastgroup
        if k:
            t = m.group(k)
            if k in ('loc', 'glob') and len(t) > 1 and t[1] == '"':
                t = t[0] + t[2:-1]
            out.append((k, t))
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'name', 'packed')

    def __init__(self, k, w=0, el=None, n=0, name=None, packed=False):
        self.k, self.w, self.el, self.n, self.name, self.packed = k, w, el, n, name, packed

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.w
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return self.name or '{%s}' % ', '.join(map(repr, self.el))
        return self.k


VOID, PTR, FLOAT, DOUBLE, LABEL, META = (Ty(x) for x in ('void', 'ptr', 'float', 'double', 'label', 'metadata'))
_INTS = {}


def INT(w):
    if w not in _INTS: _INTS[w] = Ty('int', w)
    return _INTS[w]


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly',
               'returned', 'inreg', 'nest', 'immarg', 'noreturn', 'nounwind', 'allocsize', 'readnone', 'swiftself',
               'allocptr', 'allocalign', 'nofree', 'dead_on_unwind', 'writable'}
PARAM_ATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range'}


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}      # name -> line text
        self.gparsed = {}
        self.fn_text = {}
        self.fn_sig = {}
        self.fn_decl = {}
        self.aliases = {}
        self.fns = {}
        self._split(text)
        self._dem = {}
        self._demangle_all()

    def _split(self, text):
        cur = None
        for line in text.split('\n'):
            if cur is not None:
                if line.startswith('}'):
                    cur = None
                else:
                    cur.append(line)
                continue
            if line.startswith('define '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
                name = m.group(1).strip('"')
                cur = []
                self.fn_text[name] = cur
                self.fn_sig[name] = line
            elif line.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
                self.fn_decl[m.group(1).strip('"')] = line
            elif line.startswith('%'):
                i = line.index(' = type ')
                name = line[1:i].strip('"')
                self.types[name] = line[i + 8:]
            elif line.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = ', line)
                al = re.search(r' alias .*@("[^"]*"|[-a-zA-Z$._0-9]+)\s*$', line)
                if al:
                    self.aliases[m.group(1).strip('"')] = al.group(1).strip('"')
                    continue
                self.globals[m.group(1).strip('"')] = line[m.end():]

    def _demangle_all(self):
        names = list(self.fn_text) + list(self.fn_decl) + list(self.aliases)
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        out = p.stdout.split('\n')
        for a, b in zip(names, out):
            self._dem[a] = b

    def dem(self, name):
        return self._dem.get(name, name)

    def find(self, regex):
        r = re.compile(regex)
        return [n for n in self.fn_text if r.search(self._dem[n])]

    # -------- types
    def named(self, name):
        t = self.types.get(name)
        if t is None:
            raise Unsupported('type ' + name)
        if isinstance(t, str):
            if t.strip() == 'opaque':
                ty = Ty('struct', el=[], name=name)
            else:
                p = P(tokenize(t), self)
                ty = p.type()
                ty = Ty('struct', el=ty.el, name=name, packed=ty.packed)
            self.types[name] = ty
            return ty
        return t

    def sizeof(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        k = t.k
        if k == 'int':
            b = (t.w + 7) // 8
            s = 1
            while s < b: s *= 2
            return s, s
        if k == 'ptr': return 8, 8
        if k == 'float': return 4, 4
        if k == 'double': return 8, 8
        if k == 'arr':
            s, a = self.layout(t.el)
            return s * t.n, a
        if k == 'struct':
            o, al, _ = self._slay(t)
            return o, al
        raise Unsupported('sizeof %r' % t)

    def _slay(self, t):
        key = ('lay', id(t))
        c = getattr(self, '_lc', None)
        if c is None: c = self._lc = {}
        if key in c: return c[key][0]
        o, al, offs = 0, 1, []
        for e in t.el:
            s, a = self.layout(e)
            if t.packed: a = 1
            o = (o + a - 1) // a * a
            offs.append(o)
            o += s
            al = max(al, a)
        o = (o + al - 1) // al * al
        c[key] = ((o, al, offs), t)
        return o, al, offs

    def field_off(self, t, i):
        return self._slay(t)[2][i]

    # -------- functions
    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            f = self.fns[name] = Function(self, name)
        return f

    def glob(self, name):
        """-> (is_const, type, constant-or-None)"""
        if name in self.gparsed: return self.gparsed[name]
        line = self.globals.get(name)
        if line is None: raise Unsupported('global ' + name)
        toks = tokenize(line)
        p = P(toks, self)
        const = False
        while True:
            k, t = p.peek()
            if t in ('global', 'constant'):
                const = t == 'constant'
                p.next()
                break
            p.next()
            if p.peek()[1] == '(':
                p.skip_parens()
        ty = p.type()
        init = None
        if not p.eof() and p.peek()[1] != ',':
            init = p.const(ty)
        r = (const, ty, init)
        self.gparsed[name] = r
        return r


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def eof(self): return self.i >= len(self.t)
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x[1] != s: raise Unsupported('expected %s got %r in %s' % (s, x, ' '.join(t[1] for t in self.t[:40])))

    def skip_parens(self):
        d = 0
        while True:
            x = self.next()[1]
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: return

    def type(self):
        k, t = self.next()
        if k == 'id':
            if t == 'ptr': r = PTR
            elif t[0] == 'i' and t[1:].isdigit(): r = INT(int(t[1:]))
            elif t == 'void': r = VOID
            elif t == 'float': r = FLOAT
            elif t == 'double': r = DOUBLE
            elif t == 'label': r = LABEL
            elif t == 'metadata': r = META
            else: raise Unsupported('type ' + t)
        elif k == 'loc':
            r = self.m.named(t[1:])
        elif t == '[':
            n = int(self.next()[1])
            self.expect('x')
            el = self.type()
            self.expect(']')
            r = Ty('arr', el=el, n=n)
        elif t == '{':
            r = Ty('struct', el=self._tlist('}'))
        elif t == '<':
            if self.eat('{'):
                r = Ty('struct', el=self._tlist('}'), packed=True)
                self.expect('>')
            else:
                raise Unsupported('vector type')
        else:
            raise Unsupported('type tok %r' % t)
        # function type
        while self.peek()[1] == '(':
            # e.g. "i32 (ptr, ...)" in call types
            self.skip_parens()
        return r

    def _tlist(self, end):
        out = []
        if self.eat(end): return out
        while True:
            out.append(self.type())
            if self.eat(end): return out
            self.expect(',')

    def attrs(self):
        while True:
            k, t = self.peek()
            if k == 'id' and t in PARAM_ATTRS:
                self.next()
                if self.peek()[1] == '(' and t in ('allocsize', 'nocapture'): self.skip_parens()
            elif k == 'id' and t in PARAM_ATTRS_P:
                self.next()
                if self.peek()[1] == '(': self.skip_parens()
                elif t == 'align': self.next()
            elif k == 'str':
                self.next()
            else:
                return

    def const(self, ty):
        return self.value(ty)

    def value(self, ty):
        """-> ('loc',name) | ('int',v,ty) | ('null',) | ('glob',name) | ('fp',bits,ty) | ('zero',ty) | ('undef',ty)
              | ('agg',[...],ty) | ('bytes',b) | ('gep',ty,base,[idx])"""
        k, t = self.next()
        if k == 'loc': return ('loc', t[1:])
        if k == 'glob': return ('glob', t[1:])
        if k == 'num':
            if ty.k == 'int': return ('int', int(t) & ((1 << ty.w) - 1), ty)
            if ty.k in ('float', 'double'):
                if t.startswith('0x'):
                    d = struct.unpack('>d', int(t, 16).to_bytes(8, 'big'))[0]
                else:
                    d = float(t)
                return ('fp', d, ty)
            raise Unsupported('num const for %r' % ty)
        if k == 'str':
            return ('bytes', _cstr(t))
        if k == 'id':
            if t == 'true': return ('int', 1, INT(1))
            if t == 'false': return ('int', 0, INT(1))
            if t == 'null': return ('null',)
            if t == 'none': return ('null',)
            if t in ('undef', 'poison'): return ('undef', ty)
            if t == 'zeroinitializer': return ('zero', ty)
            if t == 'getelementptr':
                self.eat('inbounds')
                self.expect('(')
                sty = self.type()
                self.expect(',')
                self.type()
                base = self.value(PTR)
                idx = []
                while self.eat(','):
                    self.eat('inrange')
                    ity = self.type()
                    idx.append(self.value(ity))
                self.expect(')')
                return ('gep', sty, base, idx)
            if t in ('ptrtoint', 'inttoptr', 'bitcast'):
                self.expect('(')
                fty = self.type()
                v = self.value(fty)
                self.expect('to')
                tty = self.type()
                self.expect(')')
                return ('cast', t, v, fty, tty)
        if t in ('[', '{', '<'):
            end = {'[': ']', '{': '}', '<': '}'}[t]
            if t == '<': self.expect('{')
            out = []
            if not self.eat(end):
                while True:
                    ety = self.type()
                    out.append((ety, self.value(ety)))
                    if self.eat(end): break
                    self.expect(',')
            if t == '<': self.expect('>')
            return ('agg', out, ty)
        raise Unsupported('value %r' % t)

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


def _cstr(t):
    s = t[t.index('"') + 1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin1')
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'res', 'a', 'txt', 'line')

    def __init__(self, op, res, a, txt):
        self.op, self.res, self.a, self.txt = op, res, a, txt

    def __repr__(self):
        return self.txt.strip()


class Block:
    __slots__ = ('name', 'phis', 'ins')

    def __init__(self, name):
        self.name, self.phis, self.ins = name, [], []


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr',
        'bitcast'}


class Function:
    def __init__(self, mod, name):
        self.m, self.name = mod, name
        sig = mod.fn_sig[name]
        p = P(tokenize(sig), mod)
        # skip to return type: everything before @name
        toks = p.t
        gi = next(i for i, x in enumerate(toks) if x[0] == 'glob')
        p.i = gi + 1
        p.expect('(')
        self.params = []
        self.vararg = False
        n = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    self.vararg = True
                else:
                    ty = p.type()
                    p.attrs()
                    if p.peek()[0] == 'loc':
                        nm = p.next()[1][1:]
                    else:
                        nm = str(n)
                    self.params.append((ty, nm))
                    n += 1
                if p.eat(')'): break
                p.expect(',')
        self.blocks = {}
        self.order = []
        self._parse(mod.fn_text[name])
        self._loops = None

    def _parse(self, lines):
        cur = None
        i = 0
        while i < len(lines):
            line = lines[i]
            i += 1
            s = line.strip()
            if not s or s.startswith(';'): continue
            if not line.startswith(' '):
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', line)
                nm = m.group(1).strip('"')
                cur = Block(nm)
                self.blocks[nm] = cur
                self.order.append(nm)
                continue
            if cur is None:
                # implicit entry label: number = #params unnamed
                nm = '%entry'
                cur = Block(nm)
                self.blocks[nm] = cur
                self.order.append(nm)
            # multi-line: switch, landingpad, invoke
            if s.startswith('switch ') or ' = switch ' in s:
                while ']' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            elif re.match(r'(%\S+ = )?invoke ', s):
                while ' unwind label' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            elif ' = landingpad ' in s:
                while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            ins = self._ins(s)
            if ins is None: continue
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.ins.append(ins)

    def _ins(self, s):
        toks = tokenize(s)
        p = P(toks, self.m)
        res = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            res = p.next()[1][1:]
            p.next()
        k, op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        if op in BIN:
            while p.peek()[1] in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'disjoint'): p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return Ins('bin', res, (op, ty, a, b), s)
        if op == 'fneg':
            ty = p.type()
            return Ins('fneg', res, (ty, p.value(ty)), s)
        if op in CAST:
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'): p.next()
            fty = p.type()
            v = p.value(fty)
            p.expect('to')
            return Ins('cast', res, (op, fty, v, p.type()), s)
        if op in ('icmp', 'fcmp'):
            pred = p.next()[1]
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            return Ins(op, res, (pred, ty, a, p.value(ty)), s)
        if op == 'load':
            p.eat('volatile')
            ty = p.type()
            p.expect(',')
            p.type()
            return Ins('load', res, (ty, p.value(PTR)), s)
        if op == 'store':
            p.eat('volatile')
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.type()
            return Ins('store', None, (ty, v, p.value(PTR)), s)
        if op == 'getelementptr':
            p.eat('inbounds')
            ty = p.type()
            p.expect(',')
            p.type()
            base = p.value(PTR)
            idx = []
            while p.eat(','):
                ity = p.type()
                idx.append((ity, p.value(ity)))
            return Ins('gep', res, (ty, base, idx), s)
        if op == 'alloca':
            ty = p.type()
            cnt = None
            if p.eat(','):
                if p.peek()[1] != 'align':
                    cnt = p.tv()
            return Ins('alloca', res, (ty, cnt), s)
        if op == 'br':
            if p.eat('label'):
                return Ins('jmp', None, (p.next()[1][1:],), s)
            p.type()
            c = p.value(INT(1))
            p.expect(',')
            p.expect('label')
            a = p.next()[1][1:]
            p.expect(',')
            p.expect('label')
            return Ins('br', None, (c, a, p.next()[1][1:]), s)
        if op == 'switch':
            ty, v = p.tv()
            p.expect(',')
            p.expect('label')
            d = p.next()[1][1:]
            p.expect('[')
            cases = []
            while not p.eat(']'):
                cty, cv = p.tv()
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], p.next()[1][1:]))
            return Ins('switch', None, (ty, v, d, cases), s)
        if op == 'ret':
            ty = p.type()
            return Ins('ret', None, (ty, None if ty.k == 'void' else p.value(ty)), s)
        if op == 'unreachable':
            return Ins('unreachable', None, (), s)
        if op == 'phi':
            ty = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(ty)
                p.expect(',')
                inc.append((v, p.next()[1][1:]))
                p.expect(']')
                if not p.eat(','): break
            return Ins('phi', res, (ty, inc), s)
        if op == 'select':
            cty, c = p.tv()
            p.expect(',')
            ty, a = p.tv()
            p.expect(',')
            _, b = p.tv()
            return Ins('select', res, (ty, c, a, b), s)
        if op in ('call', 'invoke'):
            while p.peek()[1] in ('fastcc', 'ccc', 'coldcc', 'fast', 'nnan'): p.next()
            p.attrs()
            rty = p.type()
            callee = p.value(PTR)
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    ty = p.type()
                    p.attrs()
                    if ty.k == 'metadata':
                        while p.peek()[1] not in (',', ')'): p.next()
                        args.append((ty, None))
                    else:
                        args.append((ty, p.value(ty)))
                    if p.eat(')'): break
                    p.expect(',')
            nl = ul = None
            if op == 'invoke':
                while p.peek()[1] != 'to': p.next()
                p.next()
                p.expect('label')
                nl = p.next()[1][1:]
                p.expect('unwind')
                p.expect('label')
                ul = p.next()[1][1:]
            return Ins('call', res, (rty, callee, args, nl, ul), s)
        if op == 'extractvalue':
            ty, v = p.tv()
            idx = []
            while p.eat(','):
                if p.peek()[0] != 'num': break
                idx.append(int(p.next()[1]))
            return Ins('extractvalue', res, (ty, v, idx), s)
        if op == 'insertvalue':
            ty, v = p.tv()
            p.expect(',')
            ety, ev = p.tv()
            idx = []
            while p.eat(','):
                if p.peek()[0] != 'num': break
                idx.append(int(p.next()[1]))
            return Ins('insertvalue', res, (ty, v, ety, ev, idx), s)
        if op == 'landingpad':
            return Ins('landingpad', res, (), s)
        if op == 'resume':
            ty, v = p.tv()
            return Ins('resume', None, (ty, v), s)
        if op == 'freeze':
            ty, v = p.tv()
            return Ins('freeze', res, (ty, v), s)
        raise Unsupported('instruction ' + op)

    # ------------------------------------------------------------- CFG
    def succs(self, b):
        t = self.blocks[b].ins[-1]
        if t.op == 'jmp': return [t.a[0]]
        if t.op == 'br': return [t.a[1], t.a[2]]
        if t.op == 'switch': return [t.a[2]] + [c[1] for c in t.a[3]]
        if t.op == 'call' and t.a[3]: return [t.a[3], t.a[4]]
        return []

    def loops(self):
        """natural loops: header -> set(blocks)"""
        if self._loops is not None: return self._loops
        entry = self.order[0]
        preds = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succs(b): preds[s].append(b)
        # dominators
        reach = []
        seen = set()
        st = [entry]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            reach.append(b)
            st += self.succs(b)
        dom = {b: set(seen) for b in seen}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b not in seen or b == entry: continue
                ps = [dom[p] for p in preds[b] if p in seen]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in seen:
            for h in self.succs(b):
                if h in dom[b]:
                    body = loops.setdefault(h, {h})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st += [p for p in preds[x] if p in seen]
        self._loops = loops
        return loops
