"""The opcode specifications of vmspec.py evaluated on concrete states: the executable oracle used to confirm a
counterexample against the real interpreter (and for bounded stand-in sweeps).  Same transformers, concrete values."""
import itertools, random, struct
import z3
from .sx import bv, RNE, F32, PathEnd
from . import vmspec

BV = z3.BitVecVal


def c_int(t):
    t = z3.simplify(t) if z3.is_expr(t) else t
    if isinstance(t, int): return t
    return t.as_signed_long()


class Skip(Exception):
    """the concrete state is outside the precondition"""


class CState:
    def __init__(self):
        self.code = b''
        self.pc = 0
        self.objs = []           # ['i', v] ['f', bits] ['s', bytes] ['a', [refs]] ['F', v] ['S', v]; ref = index+1, 0 = none
        self.stack, self.globs, self.frames = [], [], []
        self.strs, self.funcs, self.nsys = [], [], 0
        self.handlers, self.hret = False, False
        self.error = self.finished = self.halted = 0
        self.cycles, self.waits = 100, 0
        self.host = []

    def text(self):
        o = ['code ' + (self.code.hex() or '-'), 'pc %d' % self.pc]
        for s in self.strs: o.append('str ' + (s.hex() or '-'))
        for f in self.funcs: o.append('func f %d %d %d' % f)
        for _ in range(self.nsys): o.append('sys')
        for b in self.objs:
            if b[0] == 's': o.append('obj s ' + (b[1].hex() or '-'))
            elif b[0] == 'a': o.append('obj a %d %s' % (len(b[1]), ' '.join(map(str, b[1]))))
            else: o.append('obj %s %d' % (b[0], b[1]))
        o.append('stack %d %s' % (len(self.stack), ' '.join(map(str, self.stack))))
        o.append('glob %d %s' % (len(self.globs), ' '.join(map(str, self.globs))))
        for f in self.frames: o.append('frame %d %d %d %d' % f)
        if self.handlers: o.append('handlers')
        o.append('hret %d' % self.hret)
        o.append('go')
        return '\n'.join(o) + '\n'


KIND = {'i': 'int', 'f': 'float', 's': 'string', 'a': 'array', 'F': 'func', 'S': 'syscall'}


class CSpec:
    NONE = BV(0, 64)

    def __init__(self, E, c):
        import copy
        self.E, self.c = E, copy.deepcopy(c)
        self.objs = self.c.objs

    def b(self, cond):
        if isinstance(cond, bool): return cond
        r = z3.simplify(cond)
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        raise Skip('not concrete: %s' % r)

    @property
    def pc(self): return BV(self.c.pc, 32)
    def jump(self, v): self.c.pc = c_int(v)

    def opcode(self):
        v = self.c.code[self.c.pc]
        self.c.pc += 1
        return v

    def operand(self):
        v = struct.unpack_from('<i', self.c.code, self.c.pc)[0]
        self.c.pc += 4
        return BV(v, 32)

    def error(self, n):
        self.c.error, self.c.finished = self.E[n], 1

    def get(self, f): return BV(getattr(self.c, f.rstrip('_')), 32)

    def set(self, f, v):
        setattr(self.c, f.rstrip('_'), c_int(v) & 0xffffffff)

    def depth(self): return BV(len(self.c.stack), 64)

    def at(self, i): return BV(self.c.stack[c_int(i)], 64)
    def setat(self, i, v): self.c.stack[c_int(i)] = c_int(v)

    def pop(self):
        if not self.c.stack: raise Skip('stack')
        return BV(self.c.stack.pop(), 64)

    def drop(self, k):
        k = c_int(k)
        if k > len(self.c.stack) or k < 0: raise Skip('drop')
        if k: del self.c.stack[-k:]

    def push(self, v): self.c.stack.append(c_int(v))
    def push_range(self, k, f):
        for j in range(c_int(k)): self.c.stack.append(c_int(f(BV(j, 64))))

    def _o(self, p):
        r = c_int(p)
        return None if r == 0 else self.objs[r - 1]

    def is_none(self, p): return c_int(p) == 0 and z3.BoolVal(True) or z3.BoolVal(False)

    def isa(self, p, *names):
        o = self._o(p)
        return z3.BoolVal(('none' if o is None else KIND[o[0]]) in names)

    def v(self, p):
        o = self._o(p)
        if o is None: return BV(0, 32)
        if o[0] == 's' or o[0] == 'a': return BV(len(o[1]), 32)
        return BV(o[1], 32)

    def fl(self, p): return z3.simplify(z3.fpBVToFP(self.v(p), F32))

    def num(self, p):
        return z3.simplify(z3.fpSignedToFP(RNE, self.v(p), F32)) if self._o(p)[0] == 'i' else self.fl(p)

    def truth(self, p):
        o = self._o(p)
        if o is None: return z3.BoolVal(False)
        if o[0] in 'aFS': return z3.BoolVal(True)
        if o[0] == 'f': return z3.BoolVal((o[1] & 0x7fffffff) != 0)
        return self.v(p) != 0

    def byte(self, p, i): return BV(self._o(p)[1][c_int(i)], 8)
    def elem(self, p, i): return BV(self._o(p)[1][c_int(i)], 64)
    def set_elem(self, a, i, x): self._o(a)[1][c_int(i)] = c_int(x)

    def _new(self, o):
        self.objs.append(o)
        return BV(len(self.objs), 64)

    def new(self, t, v):
        k = {x: y for y, x in KIND.items()}[t]
        v = c_int(v)
        return self._new([k, (v & 0xffffffff) if k == 'f' else v])

    def new_int(self, v): return self.new('int', v)
    def new_bool(self, c): return self.new('int', 1 if self.b(c) else 0)

    def new_float(self, f):
        f = z3.simplify(f)
        bits = z3.simplify(z3.fpToIEEEBV(f))
        return self._new(['f', 0x7fc00000 if z3.is_true(z3.simplify(z3.fpIsNaN(f))) else bits.as_long()])

    def new_str(self, s): return self._new(['s', s])

    def new_arr(self, n, f):
        n = c_int(n)
        if n <= 0: raise Skip('array size')
        return self._new(['a', [c_int(f(BV(j, 64))) for j in range(n)]])

    def new_like(self, v): return self._new(list(self._o(v)))
    def strval(self, p): return self._o(p)[1]
    def lit(self, b): return b
    def cat(self, a, b): return a + b
    def int_text(self, v): return str(c_int(v)).encode()

    def float_text(self, f):
        f = z3.simplify(f)
        bits = z3.simplify(z3.fpToIEEEBV(f))
        if not isinstance(bits, z3.BitVecNumRef): return b'nan'
        x = struct.unpack('<f', struct.pack('<I', bits.as_long()))[0]
        return (b'%f' % x)

    def streq(self, a, b): return a == b
    def str_const(self, i): return self.c.strs[c_int(i)]
    def const_is(self, i, b): return z3.BoolVal(self.c.strs[c_int(i)] == b)
    def syscall_target(self, i): return c_int(i)
    def resolved(self, i): return z3.BoolVal(c_int(i) < 2)

    def callee_nargs(self, addr):
        a = c_int(addr)
        for s, e, n in self.c.funcs:
            if s <= a < e: return BV(n, 32)
        raise Skip('no function')
    def self_arg(self): return ('self',)
    def member_arg(self, op): return ('strref', op)
    def top_values(self, n):
        n = c_int(n)
        if n > len(self.c.stack): raise Skip('stack')
        vals = self.c.stack[len(self.c.stack) - n:]
        return lambda k: BV(vals[c_int(k)], 64)
    def reset_globals(self, n): self.c.globs = [0] * c_int(n)

    @property
    def nframes(self): return BV(len(self.c.frames), 64)
    FI = ['sp_', 'return_', 'callee_', 'terminal_']
    def frame(self, f): return BV(self.c.frames[-1][self.FI.index(f)], 8 if f == 'terminal_' else 32)
    def push_frame(self, **kw): self.c.frames.append(tuple(c_int(kw[f]) for f in self.FI))
    def pop_frame(self): self.c.frames.pop()
    @property
    def nglobals(self): return BV(len(self.c.globs), 64)
    def glob(self, i): return BV(self.c.globs[c_int(i)], 64)
    def set_glob(self, i, v): self.c.globs[c_int(i)] = c_int(v)

    def host(self, kind, term, args):
        a = [kind] + ([str(term)] if kind == 'syscall' else [])
        for x in args:
            if x[0] in ('val', 'int'): a.append(str(c_int(x[1])))
            elif x[0] == 'strref': a.append(self.c.strs[c_int(x[1])].hex() or '-')
        self.c.host.append(' '.join(a))
        return z3.BoolVal(self.c.hret)

    def handler(self, kind, *args):
        if not self.c.handlers: return False
        return self.b(self.host(kind, 0, list(args)))


# ------------------------------------------------------------------ comparing with the real run
def parse_out(txt):
    res, cur = [], None
    for l in txt.split('\n'):
        w = l.split()
        if not w: continue
        if w[0] == 'case': cur = {'objs': {}}
        elif w[0] == 'end': res.append(cur)
        elif w[0] == 'obj': cur['objs'][int(w[1])] = w[2:]
        elif w[0] == 'crash': cur['crash'] = ' '.join(w[1:])
        elif w[0] == 'host': cur['host'] = l[5:]
        elif w[0] in ('stack', 'glob'): cur[w[0]] = [int(x) for x in w[1:]]
        elif w[0] == 'frames': cur['frames'] = [tuple(int(y) for y in x.split(',')) for x in w[1:]]
        else: cur[w[0]] = int(w[1])
    return res


def view_spec(c, ref, nold, depth=0):
    if ref == 0: return 'none'
    o = c.objs[ref - 1]
    if o[0] == 's': body = ['s', o[1].hex()]
    elif o[0] == 'a': body = ['a'] + ([view_spec(c, r, nold, depth + 1) if r > nold or r == 0 else 'old%d' % r for r in o[1]])
    elif o[0] == 'f': body = ['f', 'nan' if (o[1] & 0x7fffffff) > 0x7f800000 else o[1]]
    else: body = [o[0], o[1]]
    return ('old%d' % ref, body) if ref <= nold else ('new', body)


def view_real(d, ref, nold):
    if ref == 0: return 'none'
    o = d['objs'][ref]
    if o[0] == 's':
        n = int(o[1])
        h = '' if o[2] == '-' else o[2]
        body = ['s', h[:2 * n] if h[2 * n:2 * n + 2] == '00' else 'unterminated:' + h]
    elif o[0] == 'a': body = ['a'] + [view_real(d, int(r), nold) if int(r) > nold or int(r) == 0 else 'old%s' % r for r in o[2:]]
    elif o[0] == 'f': body = ['f', 'nan' if (int(o[1]) & 0x7fffffff) > 0x7f800000 else int(o[1])]
    else: body = [o[0], int(o[1]) if len(o) > 1 else None]
    return ('old%d' % ref, body) if ref <= nold else ('new', body)


def diff_state(c0, spec, real, fields):
    if 'crash' in real: return 'the interpreter crashed (signal %s)' % real['crash']
    for f in fields:
        a, b = getattr(spec, f), real[f]
        if (a & 0xffffffff) != (b & 0xffffffff): return '%s: expected %d, got %d' % (f, a, b)
    n = len(c0.objs)
    for f, sv in (('stack', spec.stack), ('glob', spec.globs)):
        a = [view_spec(spec, r, n) for r in sv]
        b = [view_real(real, r, n) for r in real[f]]
        if a != b:
            k = next((i for i in range(max(len(a), len(b))) if i >= len(a) or i >= len(b) or a[i] != b[i]))
            return '%s (depth %d, expected %d) differs at %d: expected %s, got %s' % (f, len(b), len(a), k, a[k:], b[k:])
    if spec.frames != real['frames']: return 'frames: expected %s, got %s' % (spec.frames, real['frames'])
    for i in range(1, n + 1):
        a, b = view_spec(spec, i, n), view_real(real, i, n)
        if a != b: return 'existing value %d: expected %s, got %s' % (i, a, b)
    h = ';'.join(spec.host) + (';' if spec.host else '')
    hr = real.get('host', '')
    if h != hr: return 'host calls: expected [%s], got [%s]' % (h, hr)
    return None


# ------------------------------------------------------------------ generation
INTS = [0, 1, -1, 2, 3, 7, -7, 10, 100, 255, 256, -128, 46341, 65536, 16777217, 2147483647, -2147483648, -2147483647, 33, 64]
FLTS = [0x00000000, 0x80000000, 0x3f800000, 0xbf800000, 0x40490fdb, 0x7f800000, 0xff800000, 0x7fc00000, 0x00000001, 0x4b800001, 0x7f7fffff, 0x3e99999a, 0x40000000]
STRS = [b'', b'a', b'b', b'ab', b'abc', b'abd', b'0123456789abcdef', b'0123456789abcdefghijklmnopqrstuvwxyz', b'\xff\x80', b'length', b'none', b'1']


def pools(extra_ints=(), rnd=None):
    ints = list(dict.fromkeys(INTS + [((x + (1 << 31)) % (1 << 32)) - (1 << 31) for x in extra_ints]))
    flts = list(dict.fromkeys(FLTS + [x & 0xffffffff for x in extra_ints]))
    if rnd:
        ints += [rnd.randrange(-2**31, 2**31) for _ in range(6)]
        flts += [rnd.randrange(0, 2**32) for _ in range(4)]
    return ints, flts


def value_pool(ints, flts, strs=STRS):
    vs = [('none',)] + [('i', x) for x in ints] + [('f', x) for x in flts] + [('s', s) for s in strs]
    vs += [('a', 1), ('a', 3), ('F', 40), ('F', 7), ('S', 0), ('S', 1)]
    return vs


def add_val(c, v):
    if v[0] == 'none': return 0
    if v[0] == 'a' and v[1] > 2000:   # as many elements as fit beside their values
        c.objs.append(['i', 4711])
        c.objs.append(['a', [len(c.objs) if i % 1000 == 7 or i == v[1] - 1 else 0 for i in range(v[1])]])
        return len(c.objs)
    if v[0] == 'a':
        base = len(c.objs)
        for i in range(v[1]): c.objs.append(['i', 1000 + i])
        c.objs.append(['a', [base + 1 + i if i % 2 == 0 else 0 for i in range(v[1])]])
        return len(c.objs)
    c.objs.append([v[0], v[1]])
    return len(c.objs)


def cases(op, E, extra=(), seed=1, limit=4000):
    rnd = random.Random(seed)
    ints, flts = pools(extra, rnd)
    spec, pops, words = vmspec.OPS[op]
    vs = value_pool(ints, flts)
    small = [('none',), ('i', 0), ('i', 5), ('f', 0x3f800000), ('s', b''), ('s', b'xy'), ('a', 2), ('F', 40), ('S', 1)]
    opnds = [0, 1, 2, 3, -1, 5, 40] + [x for x in ints if abs(x) < 60] + list(extra)[:8]
    out = []

    def base():
        c = CState()
        c.strs = [b'length', b'', b'hello world', b'x' * 40, b'lengt', b'\x80\xffz']
        c.funcs = [(7, 30, 1), (40, 60, 2), (60, 70, 0)]
        c.nsys = 3
        c.globs = [0, 0, 0]
        c.frames = [(0, 3, 7, 0), (1, 11, 40, 0)]
        return c

    def finish(c, pushes, ws, below=(), huge=0):
        for v in below: c.stack.append(add_val(c, v))
        for v in pushes: c.stack.append(add_val(c, v))
        for i in range(len(c.globs)): c.globs[i] = add_val(c, ('i', 900 + i)) if i != 1 else 0
        pad = huge or rnd.choice([0, 3, 17])
        c.code = bytes(pad) + bytes([E['INS_' + op]]) + b''.join(struct.pack('<i', w) for w in ws) + bytes(16)
        c.pc = pad
        out.append(c)
    combos = []
    if words == 0: combos = [()]
    elif words == 1: combos = [(w,) for w in dict.fromkeys(opnds)]
    else: combos = [(w, x) for w in (0, 1, 3) for x in dict.fromkeys(opnds)]
    if op == 'SETA':
        aa = [('a', 1), ('a', 3), ('s', b'abc'), ('none',), ('i', 3)]
        ii = [('i', x) for x in (0, 1, 2, 3, -1, 4, 2147483647, -2147483648)] + [('f', 0x3f800000), ('none',)] + [('i', x) for x in extra]
        vals = [(v, i, a) for a in aa for i in ii for v in vs[::3] + small]
    elif op == 'DEREF':
        aa = [('a', 1), ('a', 3), ('s', b'abc'), ('s', b''), ('s', b'\xff\x80z'), ('none',), ('i', 3), ('F', 40)]
        vals = [(i, a) for a in aa for i in [('i', x) for x in (0, 1, 2, 3, -1, 4)] + vs]
    elif pops == 2: vals = [(a, b) for a in vs for b in vs]
    elif pops == 1: vals = [(a,) for a in vs]
    else: vals = [()]
    for ws in combos:
        for v in vals:
            for h in ((0, 0), (1, 0), (1, 1)) if op in ('ADD', 'SUB', 'MUL', 'DIV', 'EQ', 'DEREF', 'SETA', 'GETM', 'SETM') else ((0, 0),):
                if h[0] and len(vals) > 300 and rnd.random() > 0.15: continue
                c = base()
                c.handlers, c.hret = bool(h[0]), bool(h[1])
                finish(c, v, ws, below=rnd.choice([small, small[:3], [('i', 77)] * 8]))
    # shape variations for frame-sensitive opcodes
    for c in list(out)[:400]:
        import copy
        if op in ('RET', 'GETV', 'SETV', 'CALL', 'ICALL', 'LOCALS', 'POP'):
            for fr in ([(0, 5, 7, 1)], [(2, 5, 7, 0), (4, 6, 40, 1)], [(3, 9, 60, 0)]):
                d = copy.deepcopy(c)
                d.frames = list(fr)
                out.append(d)
    # large and irregular shapes: deep stacks and frames, long tables, operands around their ends
    big = []
    sizes = [0, 1, 2, 5, 17, 40, 127, 130, 255, 258, 300]
    keep, out = out, big

    def text():
        k = rnd.choice([0, 1, 14, 15, 16, 31, 33, 63, 64, 127, 128, 255, 256, 300])
        t = bytes(rnd.choice(b'abcXYZ019_ \x80\xff') for _ in range(k))
        return t

    def bigval():
        k = rnd.randrange(8)
        if k == 0: return ('none',)
        if k == 1: return ('f', rnd.choice(flts + [rnd.randrange(1 << 32)]))
        if k == 2: return ('s', rnd.choice(texts))
        if k == 3: return ('a', rnd.choice([1, 2, 17, 64, 130, 258]))
        if k == 4: return ('F', rnd.choice(addrs))
        if k == 5: return ('S', rnd.randrange(max(1, c.nsys)))
        return ('i', rnd.choice(ints + [rnd.randrange(-300, 300)]))
    huge = 0
    for _ in range(limit // 2):
        c = base()
        t0 = text() + b'q'
        texts = [t0, t0, t0[:-1] + b'r', t0[:-1], text(), b'r' + t0[1:]]
        c.strs = [texts[rnd.randrange(len(texts))] for _ in range(rnd.choice([1, 3, 40, 258, 300]))]
        c.nsys = rnd.choice([1, 3, 130, 258, 300])
        c.funcs, at = [], rnd.choice([0, 7, 250])
        for _ in range(rnd.choice([1, 3, 20, 260])):
            n = rnd.choice([1, 3, 90, 300])
            c.funcs.append((at, at + n, rnd.choice([0, 1, 2, 5, 9, 130, 258])))
            at += n + rnd.choice([0, 0, 5])
        addrs = [f[0] for f in c.funcs[-4:]] + [c.funcs[0][0], c.funcs[-1][1] - 1]
        c.globs = [0] * rnd.choice(sizes)
        depth = rnd.choice(sizes)
        below = [bigval() if rnd.random() < 0.3 else ('i', 2000 + i) for i in range(depth)]
        c.frames = [(rnd.randrange(depth + 1), rnd.randrange(70000), rnd.choice(addrs), int(rnd.random() < 0.1)) for _ in range(rnd.choice([1, 1, 2, 3, 20, 256, 257, 300]))]
        if len(below) == depth and rnd.random() < 0.5: c.frames[-1] = (max(0, depth - rnd.choice([0, 1, 3, 9])),) + c.frames[-1][1:]
        lens = [len(c.globs), len(c.strs), c.nsys, depth, c.frames[-1][0], depth - c.frames[-1][0], len(c.funcs)] + [f[2] for f in c.funcs[-2:]]
        w = [rnd.choice(lens) + rnd.choice([-1, 0, 0, 1, -2]) if rnd.random() < 0.6 else rnd.choice([rnd.randrange(-12, 12), rnd.randrange(-300, 300), rnd.randrange(70000), -rnd.choice(lens)]) if rnd.random() < 0.8 else rnd.choice(ints) for _ in range(words)]
        if rnd.random() < 0.4 and op == 'ICALL': w = [rnd.choice(c.funcs[-4:])[2] + rnd.choice([0, 0, 1, -1])]
        vals = [bigval() for _ in range(pops)]
        if op in ('ADD', 'EQ') and rnd.random() < 0.6: vals = [('s', rnd.choice(texts)), ('s', rnd.choice(texts))]
        if op in ('DEREF', 'SETA') and rnd.random() < 0.8:
            n = rnd.choice([1, 2, 64, 130, 258])
            vals[-1] = ('a', n) if rnd.random() < 0.7 else ('s', t0)
            n = n if vals[-1][0] == 'a' else len(t0)
            vals[-2] = ('i', rnd.choice([n - 1, n, 0, n // 2, rnd.randrange(n), -1]))
        if op == 'ICALL' and rnd.random() < 0.8: vals[-1] = rnd.choice([('F', rnd.choice(c.funcs[-4:])[0]), ('S', rnd.randrange(c.nsys))])
        if op == 'EQ' and rnd.random() < 0.2:
            x = rnd.choice(addrs)
            vals = [('F', x), ('F', x ^ rnd.choice([0, 1, 256, 1 << 16, 1 << 24]))]
        c.handlers, c.hret = rnd.random() < 0.2, rnd.random() < 0.5
        # beyond 16 bits: code addresses, lengths, stack depth
        if len(big) % 40 == 13:
            h = rnd.randrange(4)
            if h == 0: huge = 65530 + rnd.randrange(300)
            elif h == 1: below = [('none',)] * 65600 + below; c.frames[-1] = (65600 + c.frames[-1][0],) + c.frames[-1][1:]
            elif h == 2 and pops: vals[-1] = ('a', 40000 + rnd.randrange(30000))
            elif h == 3 and pops: vals[rnd.randrange(pops)] = ('s', t0 + b'w' * (65530 + rnd.randrange(300)))
            if h == 2 and op in ('DEREF', 'SETA'): vals[-2] = ('i', vals[-1][1] - rnd.choice([0, 1, 1, 3]))
            if h == 2 and op == 'GETM':
                c.strs[0] = b'length'
                w = [0]
        finish(c, vals, w, below, huge)
        huge = 0
    out = keep
    rnd.shuffle(out)
    return [x for p in zip(out, big) for x in p] + out[len(big):limit]


def in_pre(op, c, E):
    """the concrete reading of vmspec.precondition"""
    _, pops, words = vmspec.OPS[op]
    if len(c.stack) < pops or not c.frames: return False
    w = [struct.unpack_from('<i', c.code, c.pc + 1 + 4 * k)[0] for k in range(words)]
    if op in ('POP',) and not 0 <= w[0] <= len(c.stack): return False
    if op == 'ARY_INIT' and not 0 < w[0] <= len(c.stack): return False
    if op == 'NEW_ARY' and not 0 < w[0] < 1000: return False
    if op in ('LOCALS', 'GLOBALS') and not 0 <= w[0] < 1000: return False
    if op == 'RET' and w[0] < 0: return False
    if op in ('NEW_FUNC', 'NEW_SCALL') and w[0] < 0: return False
    if op in ('NEW_STR', 'GETM', 'SETM') and not 0 <= w[0] < len(c.strs): return False
    if op == 'SCALL' and not 0 <= w[1] < c.nsys: return False
    if op in ('GETV', 'SETV') and not -(1 << 24) < w[0] < (1 << 24): return False
    if op == 'ICALL':
        o = c.objs[c.stack[-1] - 1] if c.stack[-1] else None
        if o and o[0] == 'F' and not any(s <= o[1] < e for s, e, n in c.funcs): return False
        if o and o[0] == 'S' and not 0 <= o[1] < c.nsys: return False
    return True


FIELDS = ['pc', 'error', 'finished']


def sweep(native, op, E, extra=(), seed=1, limit=4000, variant=None, fields=FIELDS):
    """-> (cases run, first mismatch or None)"""
    cs = []
    for c in cases(op, E, extra, seed, limit * 3):
        if not in_pre(op, c, E): continue
        if variant and not variant(op, c): continue
        S = CSpec(E, c)
        try: vmspec.step_spec(op)(S)
        except (Skip, IndexError, struct.error): continue
        cs.append((c, S.c))
        if len(cs) >= limit: break
    if not cs: return 0, None
    outs = parse_out(native.run(''.join(c.text() for c, _ in cs)))
    for (c, s), r in zip(cs, outs):
        d = diff_state(c, s, r, fields)
        if d: return len(cs), {'opcode': op, 'state': c.text(), 'mismatch': d}
    return len(cs), None
