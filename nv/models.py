"""Assumed contracts on dependencies (C++ standard library, libc).

Every entry is an assumption; check.py lists the ones actually used by a proof
in that property's evidence.  An unlisted library function is inlined from its
real header source, and an external one makes the proof undecided.
"""
import re
import z3
from .sx import *
from .sx import Fun, RP, HP, NULL, Alt, Throw, Undecided, DECLINE, bv, simp, is_c, tobool

MODELS = []


def model(rx):
    r = re.compile(rx)

    def d(f):
        MODELS.append((r, f))
        return f
    return d


# ------------------------------------------------------------ c++ names
def split_name(d):
    """demangled -> (class, class template args list, method) at top level, or None"""
    depth = 0
    i = 0
    start = 0
    n = len(d)
    while i < n:
        c = d[i]
        if d.startswith('operator', i) and depth == 0:
            m = re.match(r'operator(\(\)|<<|>>|<=|>=|->|<|>|[^(\s<]+| [a-z]+)', d[i:])
            i += m.end() if m else 8
            continue
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif c == '(':
            if depth == 0: break
        elif c == ' ' and depth == 0: start = i + 1
        i += 1
    return d[start:i]


def targs(s):
    """'vector<A, B<C> >' -> ['A','B<C>']"""
    i = s.index('<')
    depth = 0
    cur = ''
    out = []
    for c in s[i:]:
        if c == '<':
            depth += 1
            if depth == 1: continue
        elif c == '>':
            depth -= 1
            if depth == 0:
                out.append(cur.strip())
                break
        if c == ',' and depth == 1:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out


def qual(name):
    """split qualified name on top-level '::' """
    depth = 0
    parts = []
    cur = ''
    i = 0
    while i < len(name):
        c = name[i]
        if name.startswith('operator', i) and depth == 0:
            cur += name[i:]
            break
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        if depth == 0 and name.startswith('::', i):
            parts.append(cur)
            cur = ''
            i += 2
            continue
        cur += c
        i += 1
    parts.append(cur)
    return parts


_callinfo = {}


def callinfo(eng, ins):
    """(class base name, class targs, method name) of the called function"""
    c = ins.a[1]
    name = c[1]
    name = eng.m.aliases.get(name, name)
    if name in _callinfo: return _callinfo[name]
    q = qual(split_name(eng.m.dem(name)))
    q = [x for x in q if x not in ('std', '__cxx11', '__gnu_cxx')]
    cls = q[-2] if len(q) >= 2 else ''
    base = cls.split('<')[0]
    args = targs(cls) if '<' in cls else []
    meth = q[-1]
    if not meth.startswith('operator'): meth = meth.split('<')[0]
    r = (base, args, meth)
    _callinfo[name] = r
    return r


PRIM = {'unsigned char': 1, 'char': 1, 'bool': 1, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'float': 4}
STR_T = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'


def tsize(eng, T):
    if T in PRIM: return PRIM[T]
    if T.endswith('*'): return 8
    if T == STR_T: return 32
    for pre in ('struct.', 'class.'):
        if pre + T in eng.m.types: return eng.m.sizeof(eng.m.named(pre + T))
    for pre in ('struct.', 'class.'):
        b = pre + T.split('<')[0]
        if b in eng.m.types: return eng.m.sizeof(eng.m.named(b))
    if T.startswith('std::unique_ptr<'): return 8
    if T.startswith('std::set<') or T.startswith('std::map<'): return 48
    if T.startswith('std::pair<'):
        a = targs(T)
        s = 0
        for x in a:
            z = tsize(eng, x)
            al = min(z, 8)
            s = (s + al - 1) // al * al + z
        return (s + 7) // 8 * 8
    raise Undecided('size of ' + T)


class Vec:
    size = 24

    def __init__(self, seq, T): self.seq, self.T = seq, T
    def __repr__(self): return 'Vec(%s)' % self.seq

    def raw(self, eng, st, off, ty):
        if ty.k != 'ptr': return None
        if off == 0: return RP(self.seq)
        if off == 8: return RP(self.seq, st.regs[self.seq].n)
        return None


# element typing -------------------------------------------------------------
def wrap_value(eng, st, v, p):
    t = z3.simplify(v) if z3.is_expr(v) else bv(v, 64)
    st.heap['ptr'](eng, st, t)
    return HP(t)


def unwrap_value(eng, st, v): return eng.hbase(v)


def mk_seq(eng, st, name, T, n):
    es = tsize(eng, T)
    r = eng.new_seq(st, name, es, n)
    setup_seq(eng, r, name, T)
    return r


def setup_seq(eng, r, name, T):
    r.meta = {'T': T}
    if T in ('nano::value_t*', 'nano::value_t const*'):
        r.meta['wrap'], r.meta['unwrap'] = wrap_value, unwrap_value
    r.lazy = lazy_field(name)


def lazy_field(name):
    def f(eng, st, r, off, size, ty):
        w = size * 8
        fn = z3.Function('%s.f%d_%d' % (name, off, size), z3.BitVecSort(64), z3.BitVecSort(w))
        return Fun(lambda i: fn(bv(i, 64)))
    return f


def the_obj(eng, st, p, kind, T=None):
    if isinstance(p, MaybeP):
        eng.trap(st, p.c, 'null-deref')
        p = p.p
    if isinstance(p, Null):
        eng.trap(st, False, 'null-deref')
        raise PathEnd()
    if not isinstance(p, RP): raise Undecided('%s at %r' % (kind, p))
    r = st.regs[p.r]
    if r.kind == 'seq':
        g = r.meta.get('elobj')
        if g:
            return g(eng, st, r, p, kind, T)
        f = r.f.get((p.off, kind))
        if f is not None: return f.read(p.idx)
        raise Undecided('%s inside sequence %s' % (kind, r.name))
    ob = r.objs.get(p.off)
    if ob is None:
        g = r.meta.get('lazy_obj')
        if g is None: raise Undecided('uninitialised %s in %s+%s' % (kind, r.name, p.off))
        ob = g(eng, st, r, p.off, kind, T)
        st.wr(r.id).objs[p.off] = ob
    return ob


def drop_obj(st, p):
    """the destructor of a local object ends its life"""
    if isinstance(p, RP) and p.r.startswith('alloca') and is_c(p.off) and p.off in st.regs[p.r].objs: st.wr(p.r).objs.pop(p.off)


def set_obj(eng, st, p, ob):
    if not isinstance(p, RP): raise Undecided('object at %r' % p)
    r = st.wr(p.r)
    if r.kind == 'seq':
        k = (p.off, ob.kind)
        f = r.f.get(k)
        if f is None: raise Undecided('object store into seq %s' % r.name)
        r.f[k] = f.write(p.idx, ob)
    else:
        r.objs[p.off] = ob


# ------------------------------------------------------------------- vector
@model(r'^(?:[\w:<>*&,() ]+ )?std::vector<')
def m_vector(eng, st, a, ins):
    cls, ta, meth = callinfo(eng, ins)
    if cls != 'vector' or meth in ('rbegin', 'rend', 'crbegin', 'crend'): return DECLINE
    T = ta[0]
    this = a[0]
    if meth in ('vector',):
        if len(a) == 1:
            r = mk_seq(eng, st, 'vec%d' % (eng.nreg + 1), T, 0)
            set_obj(eng, st, this, Vec(r.id, T))
            return None
        if len(a) == 2 and ('vector<' in eng.m.dem(ins.a[1][1]).split('(', 1)[1]):
            src = the_obj(eng, st, a[1], 'vector', T)
            r = eng.new_reg(st, 'veccopy', 'seq')
            s = st.regs[src.seq]
            r.es, r.n, r.f, r.meta, r.lazy = s.es, s.n, dict(s.f), s.meta, s.lazy
            set_obj(eng, st, this, Vec(r.id, T))
            return None
        raise Undecided('vector constructor')
    if meth == '~vector':
        return None
    v = the_obj(eng, st, this, 'vector', T)
    r = st.regs[v.seq]
    n = r.n
    if meth == 'size': return n
    if meth == 'empty': return int(n == 0) if is_c(n) else simp(n == 0)
    if meth in ('begin', 'cbegin', 'data', '_M_data_ptr'): return RP(v.seq)
    if meth in ('end', 'cend'): return RP(v.seq, n)
    if meth == 'operator[]' or meth == 'at':
        return RP(v.seq, a[1])
    if meth == 'back':
        eng.trap(st, bv(n, 64) != 0, 'back() on empty vector')
        return RP(v.seq, simp(bv(n, 64) - 1))
    if meth == 'front':
        eng.trap(st, bv(n, 64) != 0, 'front() on empty vector')
        return RP(v.seq)
    if meth == 'pop_back':
        eng.trap(st, bv(n, 64) != 0, 'pop_back() on empty vector')
        st.wr(v.seq).n = simp(bv(n, 64) - 1)
        return None
    if meth == 'clear':
        st.wr(v.seq).n = 0
        return None
    if meth in ('reserve', 'capacity', 'shrink_to_fit'):
        return n if meth == 'capacity' else None
    if meth in ('push_back', 'emplace_back'):
        w = st.wr(v.seq)
        w.n = (n + 1) if is_c(n) else simp(n + 1)
        dst = RP(v.seq, n)
        if len(a) == 1:
            return emplace_default(eng, st, dst, T, ins)
        if len(a) == 2:
            sig = eng.m.dem(ins.a[1][1])
            if 'decltype(nullptr)' in sig.split('(', 1)[0] and meth == 'emplace_back':
                eng.store(st, dst, PTR, NULL)
            else:
                copy_elem(eng, st, dst, a[1], T, raw=re.search(r'emplace_back<[^(]*\*>\(', sig) is not None)
            return dst if meth == 'emplace_back' else None
        if T.startswith('std::pair<') and len(a) == 3:
            A = targs(T)
            copy_elem(eng, st, dst, a[1], A[0])
            s0 = tsize(eng, A[0])
            copy_elem(eng, st, RP(dst.r, dst.idx, s0), a[2], A[1])
            return dst
        raise Undecided('emplace_back arity')
    if meth == 'erase' and len(a) == 2 and r.es == 8 and T.endswith('*'):
        it = a[1]
        if not (isinstance(it, RP) and it.r == v.seq): it = eng.load(st, it, PTR)
        i = bv(it.idx, 64)
        eng.trap(st, z3.ULT(i, bv(n, 64)), 'erase() outside of the vector')
        f = eng.seq_field(st, r, 0, 8, PTR)
        w = st.wr(v.seq)
        w.f[0, 8] = f.guarded(lambda j, f=f, i=i: (z3.UGE(bv(j, 64), i), f.read(simp(bv(j, 64) + 1))))
        w.n = simp(bv(n, 64) - 1)
        return RP(v.seq, it.idx)
    if meth == 'resize':
        w = st.wr(v.seq)
        new = a[1]
        old = n
        w.n = new
        if w.es == 1 or T in PRIM or T.endswith('*'):
            es = w.es
            f = eng.seq_field(st, w, 0, es, PTR if T.endswith('*') else INT(es * 8))
            f = f.guarded(lambda i: (z3.UGE(bv(i, 64), bv(old, 64)), z3.BitVecVal(0, es * 8)))
            st.wr(v.seq).f[0, es] = f
            return None
        raise Undecided('resize of ' + T)
    return DECLINE


def copy_elem(eng, st, dst, src, T, raw=False):
    if T in PRIM or T.endswith('*'):
        ty = PTR if T.endswith('*') else FLOAT if T == 'float' else INT(8 * PRIM[T])
        v = eng.load(st, src, ty)
        eng.store(st, dst, ty, v)
        return
    if T == STR_T or T.startswith('std::vector<'):
        k = 'string' if T == STR_T else 'vector'
        ob = the_obj(eng, st, src, k)
        rr = st.regs[dst.r]
        if rr.kind == 'seq' and (dst.off, k) not in rr.f:
            st.wr(dst.r).f[dst.off, k] = Fun(lambda i: ob)
        set_obj(eng, st, dst, ob)
        return
    if T.startswith('std::unique_ptr<'):
        # moved in, or taken over from a raw pointer
        v = eng.load(st, src, PTR)
        eng.store(st, dst, PTR, v)
        if not raw: eng.store(st, src, PTR, NULL)
        return
    if T.startswith('nano::'):
        for pre in ('struct.', 'class.'):
            if pre + T in eng.m.types:
                ty = eng.m.named(pre + T)
                return copy_struct(eng, st, dst, src, tsize(eng, T))
    raise Undecided('copy of element type ' + T)


def copy_struct(eng, st, dst, src, size):
    if not isinstance(src, RP) or not isinstance(dst, RP): raise Undecided('struct copy')
    s = st.regs[src.r]
    vals, objs = [], []
    if s.kind == 'cells':
        for o, (sz, v) in list(s.cells.items()):
            if src.off <= o < src.off + size: vals.append((o - src.off, sz, v))
        for o, ob in s.objs.items():
            if src.off <= o < src.off + size: objs.append((o - src.off, ob))
    else:
        for k, f in list(s.f.items()):
            o, sz = k
            if src.off <= o < src.off + size:
                if isinstance(sz, int):
                    v = f.read(src.idx)
                    if sz == 8 and 'wrap' in s.meta and not isinstance(v, Ptr): v = s.meta['wrap'](eng, st, v, src)
                    vals.append((o - src.off, sz, v))
                else: objs.append((o - src.off, f.read(src.idx)))
    d = st.wr(dst.r)
    for o, sz, v in vals:
        if d.kind == 'cells':
            d.cells[dst.off + o] = (sz, v)
        else:
            f = d.f.get((dst.off + o, sz))
            if f is None:
                f = Fun(lambda i: v) if not z3.is_expr(v) else eng.seq_field(st, d, dst.off + o, sz, INT(sz * 8))
            if is_c(v): v = z3.BitVecVal(v, sz * 8)
            d = st.wr(dst.r)
            d.f[dst.off + o, sz] = f.write(dst.idx, v)
    for o, ob in objs:
        if d.kind == 'cells': d.objs[dst.off + o] = ob
        else:
            f = d.f.get((dst.off + o, ob.kind)) or Fun(lambda i: ob)
            d.f[dst.off + o, ob.kind] = f.write(dst.idx, ob)


def emplace_default(eng, st, dst, T, ins):
    if T in PRIM or T.endswith('*'):
        ty = PTR if T.endswith('*') else INT(8 * PRIM[T])
        eng.store(st, dst, ty, NULL if T.endswith('*') else 0)
        return dst
    if T == 'nano::frame_t':
        for o, s in ((0, 4), (4, 4), (8, 4), (12, 1)): eng.store(st, dst, INT(s * 8), 0)
        return dst
    raise Undecided('default emplace of ' + T)


# ---------------------------------------------------------------- strings
class SV:
    """string value: len (BV64/int), fun (Fun idx->BV8), sid identity term or None, lit bytes or None"""
    kind = 'string'
    size = 32

    def __init__(self, n, fun, sid=None, lit=None): self.n, self.fun, self.sid, self.lit = n, fun, sid, lit

    def merge(self, c, o):
        if self is o: return self
        n = z3.If(c, bv(self.n, 64), bv(o.n, 64))
        a, b = self.fun, o.fun
        sid = z3.If(c, self.sid, o.sid) if self.sid is not None and o.sid is not None else None
        return SV(n, Fun(lambda i: ite(c, a.read(i), b.read(i))), sid)

    def __repr__(self): return 'SV(%r)' % (self.lit if self.lit is not None else self.sid)

    def raw(self, eng, st, off, ty): return None


_lits = {}


def lit_sid(b):
    if b not in _lits: _lits[b] = 0x5000 + len(_lits)
    return z3.BitVecVal(_lits[b], 64)


def sv_lit(b):
    return SV(len(b), Fun(const_bytes(b + b'\0')), lit_sid(b), b)


_slen = z3.Function('str.len', z3.BitVecSort(64), z3.BitVecSort(64))
_sch = z3.Function('str.ch', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))


def sv_of_sid(sid, lim=None):
    return SV(_slen(sid), Fun(lambda i: _sch(sid, bv(i, 64))), sid)


def sid_of(eng, st, sv):
    """identity term of a string value (extensional): facts relate contents"""
    if sv.sid is None:
        if is_c(sv.n) and sv.n <= 64:
            bs = [simp(sv.fun.read(i)) for i in range(sv.n)]
            if all(is_c(x) for x in bs):
                b = bytes(bs)
                sv.lit, sv.sid = b, lit_sid(b)
                return sv.sid
        sv.sid = eng.sym('sid', 64)
        eng.assume(st, _slen(sv.sid) == bv(sv.n, 64))
    return sv.sid


def str_eq(eng, st, a, b):
    """Bool term for content equality"""
    if a is b: return True
    if a.lit is not None and b.lit is not None: return a.lit == b.lit
    if a.sid is not None and b.sid is not None:
        if a.sid.eq(b.sid): return True
        e = a.sid == b.sid
        return e
    e = eng.symb('streq')
    na, nb = bv(a.n, 64), bv(b.n, 64)
    eng.assume(st, z3.Implies(e, na == nb))
    w = eng.sym('strw', 64)
    eng.assume(st, z3.Implies(z3.And(z3.Not(e), na == nb),
                              z3.And(z3.ULT(w, na), bv(a.fun.read(w), 8) != bv(b.fun.read(w), 8))))
    for s in (a, b):
        if s.lit is not None:
            for i in range(len(s.lit)):
                eng.assume(st, z3.Implies(e, bv(a.fun.read(i), 8) == bv(b.fun.read(i), 8)))

    def q(i):
        i = bv(i, 64)
        return z3.Implies(z3.And(e, z3.ULT(i, na)), bv(a.fun.read(i), 8) == bv(b.fun.read(i), 8))
    eng.strw.append(w)
    for t in eng.strw: eng.assume(st, q(t))
    eng.inst(st, w)
    st.quant.append(q)
    return e


def get_sv(eng, st, p):
    return the_obj(eng, st, p, 'string')


def str_buf(eng, st, p, sv):
    """region exposing the characters of the string at p (read-only view)"""
    r = eng.new_seq(st, 'strbuf', 1, simp(bv(sv.n, 64) + 1))
    n = bv(sv.n, 64)
    f = sv.fun

    def rd(i):
        return ite(bv(i, 64) == n, z3.BitVecVal(0, 8), f.read(i)) if not (is_c(i) and is_c(sv.n)) else (
            z3.BitVecVal(0, 8) if i == sv.n else bv(f.read(i), 8))
    r.f[0, 1] = Fun(rd)
    r.meta = {'sv': sv, 'owner': p}
    return RP(r.id)


# C strings ---------------------------------------------------------------
def cbytes(eng, st, p):
    """(read function idx->BV8, max length or None) for a char*"""
    if isinstance(p, MaybeP):
        eng.trap(st, p.c, 'null-deref')
        p = p.p
    if isinstance(p, RP):
        r = st.regs[p.r]
        if r.kind == 'seq' and r.es == 1:
            f = eng.seq_field(st, r, 0, 1, INT(8))
            i0 = p.idx
            return (lambda i: f.read(simp(bv(i0, 64) + bv(i, 64)))), simp(bv(r.n, 64) - bv(i0, 64))
    if isinstance(p, HP):
        H = st.heap
        H['touch'](eng, st, p.b)
        f = H['p8']
        i0 = eng.hidx(p, 1)
        return (lambda i: f.read(p.b, simp(bv(i0, 64) + bv(i, 64)))), simp(bv(H['size'].read(p.b), 64) - 8 - bv(i0, 64))
    raise Undecided('char data at %r' % p)


def cstr(eng, st, p):
    """C string at p as SV"""
    if isinstance(p, RP):
        r = st.regs[p.r]
        if r.kind == 'seq' and 'bytes' in r.meta and is_c(p.idx):
            b = r.meta['bytes'][p.idx:]
            if 0 in b: return sv_lit(b[:b.index(0)])
        if 'sv' in r.meta and is_c(p.idx) and p.idx == 0 and not r.meta.get('dirty'):
            sv = r.meta['sv']
            if sv.lit is not None and 0 not in sv.lit: return sv
            if r.meta.get('nonul'): return sv
            if getattr(eng, 'nonul', None) and sv.sid is not None and eng.nonul(sv.sid.sexpr()):
                eng.trusted.add('names of functions and variables contain no NUL character')
                return sv
    if isinstance(p, HP) and p.off == 8 and is_c(p.idx) and p.idx == 0:
        H = st.heap
        H['touch'](eng, st, p.b)
        rd, mx = cbytes(eng, st, p)
        if H['isstr'](eng, st, p.b):
            return SV(z3.SignExt(32, H['v'].read(p.b)), Fun(rd))
    rd, mx = cbytes(eng, st, p)
    # concrete scan first
    i = 0
    bs = []
    while i < 64:
        if is_c(mx) and i >= mx: break
        b = simp(rd(i))
        if not is_c(b): break
        if b == 0: return sv_lit(bytes(bs))
        bs.append(b)
        i += 1
    L = eng.sym('strlen', 64)
    eng.assume(st, z3.ULT(L, bv(mx, 64)))
    eng.assume(st, bv(rd(L), 8) == 0)

    def q(i):
        i = bv(i, 64)
        return z3.Implies(z3.ULT(i, L), bv(rd(i), 8) != 0)
    eng.inst(st, L)
    eng.inst(st, 0)
    for o in eng.ioffs: eng.inst(st, simp(L - bv(o, 64)))
    for t in eng.iterms: eng.assume(st, q(t))
    st.quant.append(q)
    eng.trusted.add('C string arguments are NUL-terminated inside their buffer')
    return SV(L, Fun(rd))


@model(r'^strlen$')
def m_strlen(eng, st, a, ins):
    return cstr(eng, st, a[0]).n


@model(r'^strcmp$')
def m_strcmp(eng, st, a, ins):
    x, y = cstr(eng, st, a[0]), cstr(eng, st, a[1])
    e = str_eq(eng, st, x, y)
    if isinstance(e, bool): return 0 if e else 1
    r = eng.sym('strcmp', 32)
    eng.assume(st, (r == 0) == e)
    return r


# byte blocks ---------------------------------------------------------------
@model(r'^(memcpy|memmove)$|^llvm\.(memcpy|memmove)\.')
def m_memcpy(eng, st, a, ins):
    dst, src, n = a[0], a[1], a[2]
    if is_c(n) and n == 0: return dst
    if isinstance(dst, RP) and isinstance(src, RP) and st.regs[dst.r].kind == 'cells' and st.regs[src.r].kind == 'cells' \
            and is_c(n) and is_c(dst.off) and is_c(src.off):
        s = st.regs[src.r]
        # force lazily initialised cells by plain struct copy
        copy_cells(eng, st, dst, src, n)
        return dst
    if isinstance(dst, HP) and isinstance(src, HP):
        return h_copy(eng, st, dst, src, n)
    if isinstance(dst, RP) and isinstance(src, RP) and is_c(n):
        d, s = st.regs[dst.r], st.regs[src.r]
        if d.kind == 'seq' and d.es > 1 and n == d.es or s.kind == 'seq' and s.es > 1 and n == s.es:
            copy_struct(eng, st, dst, src, n)
            return dst
        if s.kind == 'seq' and s.es > 1 and n == 8 and (src.off, 8) in s.f:
            eng.store(st, dst, INT(64), eng.load(st, src, INT(64)))
            return dst
        if s.kind == 'seq' and s.es > 1 and n == 8 and is_c(src.off) and is_c(dst.off):
            for o in (0, 4): eng.store(st, RP(dst.r, dst.idx, dst.off + o), INT(32), eng.load(st, RP(src.r, src.idx, src.off + o), INT(32)))
            return dst
        # the padding behind the last field: what reads it later finds nothing there
        hole = lambda p, r: r.kind == 'seq' and r.es > 1 and is_c(p.off) and n < 8 and p.off % 4 and p.off + n == r.es and not any(o < p.off + n and p.off < o + z for o, z in r.f)
        if hole(src, s) and d.kind == 'seq' and d.es == 1 and is_c(d.n) and d.n == n:
            def unknown(i): raise Undecided('padding of a struct is read')
            d.f[0, 1] = Fun(unknown)
            d.meta['padding'] = True
            return dst
        if hole(dst, d) and s.kind == 'seq' and s.meta.get('padding'): return dst
    rd, mx = cbytes(eng, st, src)
    eng.trap(st, z3.ULE(bv(n, 64), bv(mx, 64)), 'memcpy reads out of bounds')
    write_bytes(eng, st, dst, n, rd)
    return dst


def copy_cells(eng, st, dst, src, n):
    s = st.regs[src.r]
    vals = [(o - src.off, c) for o, c in s.cells.items() if src.off <= o < src.off + n]
    objs = [(o - src.off, c) for o, c in s.objs.items() if src.off <= o < src.off + n]
    cov = sum(c[0] for _, c in vals) + sum(o[1].size for o in objs)
    if cov < n and s.lazy is not None:
        # materialise word by word
        o = 0
        have = {x for x, _ in vals}
        while o < n:
            if o not in have and not any(x <= o < x + c[0] for x, c in vals):
                w = 4 if n - o >= 4 else 1
                v = eng.load(st, RP(src.r, 0, src.off + o), INT(8 * w))
                vals.append((o, (w, v)))
                o += w
            else:
                o += 1
    d = st.wr(dst.r)
    for o in [x for x, (sz, _) in d.cells.items() if dst.off <= x < dst.off + n]: del d.cells[o]
    for o, c in vals: d.cells[dst.off + o] = c
    for o, c in objs: d.objs[dst.off + o] = c


def write_bytes(eng, st, dst, n, rd):
    if isinstance(dst, HP):
        H = st.heap
        H['touch'](eng, st, dst.b)
        byte = eng.hbyte(dst)
        bs = bv(H['size'].read(dst.b), 64)
        eng.trap(st, z3.And(z3.UGE(byte, 8), z3.ULE(byte, bs), z3.ULE(bv(n, 64), bs - byte)), 'memcpy/memset writes out of bounds')
        H['p8'] = H['p8'].range(dst.b, eng.hidx(dst, 1), bv(n, 64), lambda k: bv(rd(k), 8))
        return
    if isinstance(dst, RP):
        r = st.regs[dst.r]
        if r.kind == 'seq' and r.es == 1:
            eng.trap(st, z3.And(z3.ULE(bv(dst.idx, 64), bv(r.n, 64)), z3.ULE(bv(n, 64), bv(r.n, 64) - bv(dst.idx, 64))),
                     'memcpy/memset writes out of bounds')
            f = eng.seq_field(st, r, 0, 1, INT(8))
            st.wr(dst.r).f[0, 1] = f.range(dst.idx, bv(n, 64), lambda k: bv(rd(k), 8))
            if 'sv' in r.meta:
                w = st.wr(dst.r)
                w.meta = dict(r.meta, dirty=True)
            return
    raise Undecided('byte store to %r' % dst)


def h_copy(eng, st, dst, src, n):
    H = st.heap
    for p, w in ((src, 'reads'), (dst, 'writes')):
        H['touch'](eng, st, p.b)
        byte = eng.hbyte(p)
        bs = bv(H['size'].read(p.b), 64)
        eng.trap(st, z3.And(z3.UGE(byte, 8), z3.ULE(byte, bs), z3.ULE(bv(n, 64), bs - byte)), 'memcpy %s out of bounds' % w)
    i8, j8 = eng.hidx(dst, 1), eng.hidx(src, 1)
    p8, p64 = H['p8'], H['p64']
    H['p8'] = p8.range(dst.b, i8, bv(n, 64), lambda k: p8.read(src.b, simp(bv(j8, 64) + bv(k, 64))))
    try:
        i, j = eng.hidx(dst, 8), eng.hidx(src, 8)
        H['p64'] = p64.range(dst.b, i, z3.LShR(bv(n, 64), 3), lambda k: p64.read(src.b, simp(bv(j, 64) + bv(k, 64))))
    except Undecided:
        pass
    return dst


@model(r'^llvm\.fmuladd\.f(32|64)')
def m_fmuladd(eng, st, a, ins):
    eng.trusted.add('a * b + c on doubles is not contracted (x86-64 without FMA)')
    x, y, z = [z3.FPVal(v, z3.Float64()) if isinstance(v, (int, float)) else v for v in a]
    from .ir import DOUBLE
    return eng.binop(st, 'fadd', DOUBLE, eng.binop(st, 'fmul', DOUBLE, x, y), z)


@model(r'^memset$|^llvm\.memset\.')
def m_memset(eng, st, a, ins):
    dst, c, n = a[0], a[1], a[2]
    if is_c(n) and n == 0: return dst
    c8 = simp(z3.Extract(7, 0, bv(c, 32))) if not is_c(c) else c & 255
    if isinstance(dst, HP):
        H = st.heap
        write_bytes(eng, st, dst, n, lambda k: bv(c8, 8))
        if is_c(c8) and c8 == 0:
            H['p64'] = H['p64'].range(dst.b, eng.hidx(dst, 8), z3.LShR(bv(n, 64), 3), lambda k: z3.BitVecVal(0, 64))
            return dst
        H['p64'] = H['p64'].range(dst.b, eng.hidx(dst, 8), z3.LShR(bv(n, 64), 3), lambda k: z3.BitVecVal(c8 * 0x0101010101010101, 64))
        return dst
    if isinstance(dst, RP):
        r = st.regs[dst.r]
        if r.kind == 'seq' and r.es > 1 and is_c(c8) and c8 == 0:
            cnt = simp(z3.UDiv(bv(n, 64), bv(r.es, 64)))
            eng.trap(st, z3.And(z3.ULE(bv(dst.idx, 64), bv(r.n, 64)), z3.ULE(bv(n, 64), (bv(r.n, 64) - bv(dst.idx, 64)) * r.es)), 'memset out of bounds')
            eng.trap(st, bv(cnt, 64) * r.es == bv(n, 64), 'memset partial element')
            w = st.wr(dst.r)
            if r.es == 8: eng.seq_field(st, w, 0, 8, PTR)
            w = st.wr(dst.r)
            for k in list(w.f):
                w.f[k] = w.f[k].range(dst.idx, cnt, lambda j, k=k: z3.BitVecVal(0, k[1] * 8))
            return dst
        if r.kind == 'seq' and r.es == 1:
            write_bytes(eng, st, dst, n, lambda k: bv(c8, 8))
            return dst
        if r.kind == 'cells' and is_c(n) and n <= 256 and is_c(dst.off):
            w = st.wr(dst.r)
            for o in [x for x in w.cells if dst.off <= x < dst.off + n]: del w.cells[o]
            for i in range(n): w.cells[dst.off + i] = (1, c8)
            return dst
    raise Undecided('memset of %r' % dst)


# text formatting: uninterpreted text functions with exact truncation semantics
FMT_LEN, FMT_CH = {}, {}


def fmt_text(eng, st, fmt, args):
    """SV for printf-style formatting; decimal text is an uninterpreted function of the value"""
    spec = re.findall(rb'%[^a-zA-Z%]*[a-zA-Z%]', fmt)
    if not spec: return sv_lit(fmt)
    parts = re.split(rb'(%[^a-zA-Z%]*[a-zA-Z%])', fmt)
    res = None
    k = 0
    for p in parts:
        if p == b'': continue
        if p.startswith(b'%'):
            a = args[k]
            k += 1
            c = p[-1:]
            if c == b's': sv = cstr(eng, st, a)
            elif p in (b'%d', b'%i'): sv = int_text(eng, st, a)
            elif c in (b'f',) and p == b'%f': sv = float_text(eng, st, a)
            else: sv = None
            if sv is None: raise Undecided('printf format %r' % p)
        else: sv = sv_lit(p)
        if res is not None: eng.ioffs.append(res.n)
        res = sv if res is None else sv_cat(res, sv)
    return res


def int_text(eng, st, v):
    v = bv(v, 32)
    ln = z3.Function('text.int.len', z3.BitVecSort(32), z3.BitVecSort(64))
    ch = z3.Function('text.int.ch', z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(8))
    eng.assume(st, z3.And(z3.UGE(ln(v), 1), z3.ULE(ln(v), 11)))
    st.quant.append(lambda i: z3.Implies(z3.ULT(bv(i, 64), ln(v)), ch(v, bv(i, 64)) != 0))
    eng.trusted.add('decimal text of an int has 1..11 non-NUL characters')
    return SV(ln(v), Fun(lambda i: ch(v, bv(i, 64))))


def float_text(eng, st, v):
    """%f text of a float promoted to double"""
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 2 and v.arg(1).sort() == F32: v = v.arg(1)
    if v.sort() == F64:
        ln = z3.Function('text.f64.len', F64, z3.BitVecSort(64))
        ch = z3.Function('text.f64.ch', F64, z3.BitVecSort(64), z3.BitVecSort(8))
    else:
        ln = z3.Function('text.f32.len', F32, z3.BitVecSort(64))
        ch = z3.Function('text.f32.ch', F32, z3.BitVecSort(64), z3.BitVecSort(8))
    eng.assume(st, z3.And(z3.UGE(ln(v), 1), z3.ULE(ln(v), 47)))
    st.quant.append(lambda i: z3.Implies(z3.ULT(bv(i, 64), ln(v)), ch(v, bv(i, 64)) != 0))
    eng.trusted.add('%f text of a float has 1..47 non-NUL characters')
    return SV(ln(v), Fun(lambda i: ch(v, bv(i, 64))))


def sv_cat(a, b):
    if a.lit is not None and b.lit is not None: return sv_lit(a.lit + b.lit)
    na = a.n
    n = simp(bv(a.n, 64) + bv(b.n, 64))

    def rd(i):
        c = z3.simplify(z3.ULT(bv(i, 64), bv(na, 64)))
        if z3.is_true(c): return a.fun.read(i)
        if z3.is_false(c): return b.fun.read(simp(bv(i, 64) - bv(na, 64)))
        return ite(c, bv(a.fun.read(i), 8), bv(b.fun.read(simp(bv(i, 64) - bv(na, 64))), 8))
    return SV(n, Fun(rd))


@model(r'^snprintf$')
def m_snprintf(eng, st, a, ins):
    buf, size, fmt = a[0], a[1], a[2]
    f = cstr(eng, st, fmt)
    if f.lit is None: raise Undecided('symbolic format')
    t = fmt_text(eng, st, f.lit, a[3:])
    n = bv(t.n, 64)
    if is_c(size) and size == 0: return simp(z3.Extract(31, 0, n))
    cut = bv(size, 64) - 1
    m = simp(z3.If(z3.ULT(n, cut), n, cut))
    write_bytes(eng, st, buf, m, lambda k: bv(t.fun.read(k), 8))
    end = eng.padd(st, buf, 0, [(bv(m, 64), 1)])
    write_bytes(eng, st, end, 1, lambda k: z3.BitVecVal(0, 8))
    if not is_c(m): eng.iterms.append(m)
    return simp(z3.Extract(31, 0, n))


# std::string --------------------------------------------------------------
@model(r'basic_string<char')
def m_string(eng, st, a, ins):
    cls, ta, meth = callinfo(eng, ins)
    dem = eng.m.dem(ins.a[1][1])
    if cls == 'basic_string':
        if meth in ('basic_string',):
            sig = dem[dem.index('::basic_string(') + 15:] if '::basic_string(' in dem else dem.split('(', 1)[1]
            if dem.count('basic_string<char const*') or '_M_construct' in dem: pass
            if len(a) == 1:
                init_sv(eng, st, a[0], sv_lit(b''))
                return None
            if 'char const*' in sig and sig.startswith('char const*'):
                if re.match(r'char const\*, char const\*', sig):
                    n = eng.binop(st, 'sub', INT(64), eng.cast(st, 'ptrtoint', PTR, a[2], INT(64)), eng.cast(st, 'ptrtoint', PTR, a[1], INT(64)))
                    rd, mx = cbytes(eng, st, a[1])
                    eng.trap(st, z3.ULE(bv(n, 64), bv(mx, 64)), 'string constructor reads out of bounds')
                    init_sv(eng, st, a[0], SV(n, Fun(rd)))
                elif 'unsigned long' in sig:
                    rd, mx = cbytes(eng, st, a[1])
                    eng.trap(st, z3.ULE(bv(a[2], 64), bv(mx, 64)), 'string constructor reads out of bounds')
                    init_sv(eng, st, a[0], SV(a[2], Fun(rd)))
                else:
                    eng.trap(st, z3.Not(tobool(eng.icmp(st, 'eq', PTR, a[1], NULL))), 'std::string from null')
                    init_sv(eng, st, a[0], cstr(eng, st, a[1]))
                return None
            if sig.startswith('std::__cxx11::basic_string') or sig.startswith('std::string'):
                init_sv(eng, st, a[0], get_sv(eng, st, a[1]))
                return None
            if sig.startswith('unsigned long, char'):
                ch = a[2]
                init_sv(eng, st, a[0], SV(a[1], Fun(lambda i: bv(ch, 8))))
                return None
            raise Undecided('string constructor ' + sig)
        if meth == '~basic_string':
            drop_obj(st, a[0])
            return None
        this = a[0]
        if meth == 'operator=' or meth == 'assign':
            sig = dem.rsplit('(', 1)[1]
            if 'basic_string' in dem.split(meth, 1)[1].split('(', 1)[1]:
                sv = get_sv(eng, st, a[1])
            elif 'char const*, unsigned long' in dem:
                rd, mx = cbytes(eng, st, a[1])
                eng.trap(st, z3.ULE(bv(a[2], 64), bv(mx, 64)), 'string assign reads out of bounds')
                sv = SV(a[2], Fun(rd))
            elif 'char const*, char const*' in dem:
                n = eng.binop(st, 'sub', INT(64), eng.cast(st, 'ptrtoint', PTR, a[2], INT(64)), eng.cast(st, 'ptrtoint', PTR, a[1], INT(64)))
                rd, mx = cbytes(eng, st, a[1])
                eng.trap(st, z3.ULE(bv(n, 64), bv(mx, 64)), 'string assign reads out of bounds')
                sv = SV(n, Fun(rd))
            elif 'char const*' in dem:
                sv = cstr(eng, st, a[1])
            else: raise Undecided('string assign')
            init_sv(eng, st, this, sv)
            return this
        sv = get_sv(eng, st, this)
        if meth in ('size', 'length'): return sv.n
        if meth == 'empty': return int(sv.n == 0) if is_c(sv.n) else simp(sv.n == 0)
        if meth in ('c_str', 'data', '_M_data'): return str_buf(eng, st, this, sv)
        if meth in ('operator[]', 'at'):
            p = str_buf(eng, st, this, sv)
            return RP(p.r, a[1])
        if meth == 'back':
            eng.trap(st, bv(sv.n, 64) != 0, 'back() on empty string')
            p = str_buf(eng, st, this, sv)
            return RP(p.r, simp(bv(sv.n, 64) - 1))
        if meth == 'clear':
            init_sv(eng, st, this, sv_lit(b''))
            return None
        if meth in ('operator+=', 'push_back', 'append'):
            rest = dem.split(meth, 1)[1]
            if rest.startswith('(char)'): o = SV(1, Fun(lambda i: bv(a[1], 8)))
            elif 'basic_string' in rest: o = get_sv(eng, st, a[1])
            elif 'char const*)' in rest: o = cstr(eng, st, a[1])
            elif 'char const*, unsigned long)' in rest:
                rd, mx = cbytes(eng, st, a[1])
                eng.trap(st, z3.ULE(bv(a[2], 64), bv(mx, 64)), 'append reads out of bounds')
                o = SV(a[2], Fun(rd))
            else: raise Undecided('string append ' + rest)
            init_sv(eng, st, this, sv_cat(sv, o))
            return this
        if meth == 'reserve': return None
        if meth in ('find_last_of', 'rfind', 'find_last_not_of') and meth == 'find_last_of':
            rest = dem.split(meth, 1)[1]
            if rest.startswith('(char,'): lit = None
            elif rest.startswith('(char const*, unsigned long)'):
                lit = cstr(eng, st, a[1]).lit
                if lit is None: raise Undecided('find_last_of an unknown set')
            else: raise Undecided('find_last_of' + rest)
            if not (is_c(a[2]) and a[2] & MASK[64] == MASK[64]): raise Undecided('find_last_of from a position')
            def has(i):
                c = bv(sv.fun.read(i), 8)
                return c == bv(a[1], 8) if lit is None else z3.Or([c == x for x in lit] + [z3.BoolVal(False)])
            p, n = eng.sym('last', 64), bv(sv.n, 64)
            NP = z3.BitVecVal(-1, 64)
            eng.assume(st, z3.Or(p == NP, z3.And(z3.ULT(p, n), has(p))))
            q = lambda i: z3.Implies(z3.And(z3.ULT(bv(i, 64), n), z3.Or(p == NP, z3.UGT(bv(i, 64), p))), z3.Not(has(bv(i, 64))))
            st.quant.append(q)
            for t in eng.ghost_terms: eng.assume(st, q(t))
            return p
        if meth == 'resize':
            old = sv.n
            f = sv.fun
            ch = a[2] if len(a) > 2 else 0
            init_sv(eng, st, this, SV(a[1], Fun(lambda i: ite(z3.ULT(bv(i, 64), bv(old, 64)), bv(f.read(i), 8), bv(ch, 8)))))
            return None
        raise Undecided('std::string::' + meth)
    name = split_name(dem)
    if re.match(r'std::operator==', name) or re.match(r'std::operator!=', name):
        sig = dem.split('(', 1)[1]
        def sideof(p, s):
            return get_sv(eng, st, p) if 'basic_string' in s else cstr(eng, st, p)
        body = dem[dem.index('('):]
        # argument types: split at top-level comma
        ts = split_args(body)
        x = sideof(a[0], ts[0])
        y = sideof(a[1], ts[1])
        e = str_eq(eng, st, x, y)
        if isinstance(e, bool): return int(e == ('operator==' in name))
        return simp(e if 'operator==' in name else z3.Not(e))
    if re.match(r'std::operator\+', name):
        ts = split_args(dem[dem.index('(', dem.index('operator+')):])
        def side(p, s):
            if 'basic_string' in s: return get_sv(eng, st, p)
            if s.strip() == 'char': return SV(1, Fun(lambda i: bv(p, 8)))
            return cstr(eng, st, p)
        init_sv(eng, st, a[0], sv_cat(side(a[1], ts[0]), side(a[2], ts[1])))
        return None
    return DECLINE


def split_args(s):
    d = 0
    out = []
    cur = ''
    for c in s:
        if c in '(<[': d += 1
        if c in ')>]': d -= 1
        if d == 0 and c == ')':
            break
        if d == 1 and c == '(' and not cur and not out: continue
        if c == ',' and d == 1:
            out.append(cur)
            cur = ''
        else: cur += c
    out.append(cur)
    return out


def init_sv(eng, st, p, sv):
    if isinstance(p, RP):
        r = st.regs[p.r]
        if r.kind == 'seq' and (p.off, 'string') not in r.f: st.wr(p.r).f[p.off, 'string'] = Fun(lambda i: sv)
    set_obj(eng, st, p, sv)


@model(r'^std::__cxx11::to_string\(|^std::to_string\(')
def m_to_string(eng, st, a, ins):
    d = eng.m.dem(ins.a[1][1])
    if '(int)' in d: init_sv(eng, st, a[0], int_text(eng, st, a[1]))
    elif '(float)' in d: init_sv(eng, st, a[0], float_text(eng, st, a[1]))
    else: raise Undecided(d)
    return None


@model(r'^std::allocator<char>::(~)?allocator|^std::__new_allocator<char>|^std::__cxx11::basic_string<char.*>::_Alloc_hider')
def m_alloc(eng, st, a, ins): return None


# process termination --------------------------------------------------------
@model(r'^__assert_fail$')
def m_assert(eng, st, a, ins):
    msg = ''
    try:
        r = st.regs[a[0].r]
        msg = r.meta['bytes'].split(b'\0')[0].decode()
    except Exception: pass
    eng.trap(st, False, 'assertion failure (host abort): ' + msg)
    raise PathEnd()


@model(r'^__clang_call_terminate$|^std::terminate|^abort$')
def m_term(eng, st, a, ins):
    eng.trap(st, False, 'terminate')
    raise PathEnd()


@model(r'^llvm\.(dbg|lifetime|assume|experimental|stacksave|stackrestore|va_)')
def m_llvm_nop(eng, st, a, ins): return None


@model(r'^__cxa_(begin_catch|end_catch|free_exception|rethrow)$')
def m_cxa(eng, st, a, ins):
    return NULL


@model(r'^llvm\.eh\.typeid\.for')
def m_typeid(eng, st, a, ins):
    p = a[0]
    return tid(p.r[1:]) if isinstance(p, RP) else 1


@model(r'^printf$|^puts$|^putchar$|^fprintf$|^fputs$|^fflush$')
def m_printf(eng, st, a, ins): return 0


# std::set / std::map queries used by the VM (breakpoints, line table) ---------
@model(r'^std::set<nano::line_t.*>::(empty|count|contains|find|end|size)\b')
def m_lineset(eng, st, a, ins):
    cls, ta, meth = callinfo(eng, ins)
    ob = the_obj(eng, st, a[0], 'set', ta)
    if meth == 'empty': return ob.empty(eng, st)
    if meth == 'size':
        n = z3.BitVec(ob.name + '.size', 64)
        eng.assume(st, (n == 0) == ob.e)
        return n
    last = z3.BitVec(ob.name + '.end', 64)
    if meth == 'end': return last
    f = eng.load(st, a[1], INT(32))
    l = eng.load(st, eng.padd(st, a[1], 4, []), INT(32))
    c = ob.count(eng, st, f, l)
    if meth == 'count': return c
    if meth == 'contains': return simp(c != 0)
    at = z3.BitVec(ob.name + '.at', 64)
    eng.assume(st, at != last)
    return simp(z3.If(c != 0, at, last))


@model(r'^(bool )?std::operator(==|!=)\(std::_Rb_tree_const_iterator<nano::line_t> const&')
def m_lineset_same(eng, st, a, ins):
    x, y = (eng.load(st, p, INT(64)) for p in a[:2])
    e = bv(x, 64) == bv(y, 64)
    return simp(z3.Not(e) if 'operator!=' in eng.m.dem(ins.a[1][1]) else e)


class LineSet:
    kind = 'set'
    size = 48

    def __init__(self, name):
        self.name = name
        self.e = z3.Bool(name + '.empty')
        self.c = z3.Function(name + '.has', z3.BitVecSort(32), z3.BitVecSort(32), z3.BoolSort())

    def empty(self, eng, st): return self.e

    def count(self, eng, st, f, l):
        c = self.c(bv(f, 32), bv(l, 32))
        eng.assume(st, z3.Implies(self.e, z3.Not(c)))
        return simp(z3.If(c, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))


@model(r'^nano::program_t::get_line\(unsigned int\) const')
def m_get_line(eng, st, a, ins):
    return DECLINE
