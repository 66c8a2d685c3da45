"""Symbolic pre-state of a VM thread, the specification-side API and the refinement comparison."""
import itertools
import z3
from .sx import *
from .sx import Fun, Fun2, RP, HP, NULL, Ptr, Null, HostFn, Opq, Engine, State, Alt, Undecided, PathEnd, bv, simp, is_c, tobool, base_eq, is_fresh_base
from .models import *
from .models import sv_lit, sv_cat, int_text, float_text, str_eq, lit_sid, Vec, SV, LineSet, mk_seq, setup_seq, sv_of_sid, MODELS, tsize, the_obj, set_obj
from .ir import Unsupported, PTR, INT

B64 = z3.BitVecSort(64)
B32 = z3.BitVecSort(32)


class LineMap:
    """std::map<int, line_t> (program line table)"""
    kind = 'map'
    size = 48

    def __init__(self, name):
        self.name = name
        self.has = z3.Function(name + '.has', B32, z3.BoolSort())
        self.file = z3.Function(name + '.file', B32, B32)
        self.line = z3.Function(name + '.line', B32, B32)


def heap_init(eng, st, E):
    """the value heap of the pre-state"""
    V0 = z3.Function('heap.v', B64, B32)
    T0 = z3.Function('heap.t', B64, B32)
    S0 = z3.Function('heap.size', B64, B64)
    P8 = z3.Function('heap.p8', B64, B64, z3.BitVecSort(8))
    P64 = z3.Function('heap.p64', B64, B64, B64)
    OLD = z3.Function('heap.old', B64, z3.BoolSort())
    H = {'v': Fun2(lambda b, i=0: V0(b)), 't': Fun2(lambda b, i=0: T0(b)), 'size': Fun2(lambda b, i=0: S0(b)),
         'p8': Fun2(lambda b, i: P8(b, bv(i, 64))), 'p64': Fun2(lambda b, i: P64(b, bv(i, 64))), 'OLD': OLD}
    LIM = 1 << 24

    def touch(eng, st, b):
        if is_fresh_base(b): return
        t = st.ghost.get('touched', frozenset())
        k = b.get_id()
        if k in t: return
        st.ghost['touched'] = t | {k}
        st.ghost.setdefault('keep', [])
        st.ghost['keep'] = st.ghost['keep'] + [b]
        t0, v0, s0 = T0(b), V0(b), S0(b)
        isarr, isstr = t0 == E['val_type_array'], t0 == E['val_type_string']
        eng.assume(st, z3.Implies(OLD(b), z3.And(
            z3.Or([t0 == E[n] for n in ('val_type_int', 'val_type_string', 'val_type_array', 'val_type_float', 'val_type_func', 'val_type_syscall')]),
            z3.Implies(isarr, z3.And(v0 > 0, v0 < LIM, s0 == 8 + 8 * z3.SignExt(32, v0))),
            z3.Implies(isstr, z3.And(v0 >= 0, v0 < LIM, s0 == 9 + z3.SignExt(32, v0), P8(b, z3.SignExt(32, v0)) == 0)),
            z3.Implies(z3.And(z3.Not(isarr), z3.Not(isstr)), s0 == 8))))
        st.quant.append(lambda i: z3.Implies(z3.And(OLD(b), isstr, z3.ULT(bv(i, 64), z3.SignExt(32, v0))), P8(b, bv(i, 64)) != 0))

    def ptr(eng, st, t):
        if is_fresh_base(t) or isinstance(t, z3.BitVecNumRef): return
        k = t.get_id()
        s = st.ghost.get('ptrs', frozenset())
        if k in s: return
        st.ghost['ptrs'] = s | {k}
        st.ghost['keep'] = st.ghost.get('keep', []) + [t]
        alts = [t == 0, OLD(t)] + [t == f for f, _ in st.fresh]
        eng.assume(st, z3.Or(alts))

    def isstr(eng, st, b):
        if is_fresh_base(b): return False
        c = z3.And(OLD(b), st.heap['t'].read(b) == E['val_type_string'], st.heap['v'].read(b) == V0(b))
        if not eng.feasible(z3.Not(c)):
            # payload unchanged since entry?
            return st.heap['p8'] is H0['p8'] or not any(L[1].eq(b) for L in st.heap['p8'].layers if L[0] != 'g')
        return False
    H['touch'], H['ptr'], H['isstr'] = touch, ptr, isstr
    H0 = dict(H)
    st.heap = H
    eng.assume(st, z3.Not(OLD(z3.BitVecVal(0, 64))))
    return H


def alloc_obj(eng, st, size, name=None):
    b = z3.BitVec('%s%d' % (FRESH_PREFIX, len(st.fresh)), 64) if name is None else name
    H = st.heap
    eng.assume(st, z3.And(b != 0, z3.Not(H['OLD'](b)), *[b != f for f, _ in st.fresh]))
    st.fresh.append((b, size))
    H['size'] = H['size'].write(b, 0, bv(size, 64))
    u = z3.Function('garbage.%s' % b, B64, z3.BitVecSort(8))
    u64 = z3.Function('garbage64.%s' % b, B64, B64)
    uh = z3.BitVec('garbage.%s.v' % b, 32)
    ut = z3.BitVec('garbage.%s.t' % b, 32)
    H['v'] = H['v'].write(b, 0, uh)
    H['t'] = H['t'].write(b, 0, ut)
    H['p8'] = H['p8'].range(b, 0, z3.BitVecVal(1 << 40, 64), lambda k: u(bv(k, 64)))
    H['p64'] = H['p64'].range(b, 0, z3.BitVecVal(1 << 40, 64), lambda k: u64(bv(k, 64)))
    return b


class World:
    """thread region T, vm region V, program region P, gc region G"""
    ROOM = 1 << 20

    def __init__(self, target, breakpoints=False):
        self.t = target
        self.E = target.enums
        self.breakpoints = breakpoints
        self.eng = None

    def offs(self, c, f): return self.t.off(c, f)

    def engine(self, **kw):
        e = Engine(self.t.mod, list(MODELS), **kw)
        e.host_call = lambda st, cal, av, ins: self.host_call(e, st, cal, av, ins)
        import re
        e.contracts = [(re.compile(r'nano::value_t\* nano::arena_t::alloc<nano::value_t>\('), self.c_alloc),
                       (re.compile(r'^std::map<int, nano::line_t.*>::(find|end|begin)\('), self.c_linemap)]
        self.eng = e
        return e

    # ---- contracts used at call sites
    def c_alloc(self, eng, st, a, ins):
        """arena_t::alloc<value_t>: a fresh, disjoint block of 8+extra bytes (proved separately: property C09);
        assumes the semi-space has room"""
        extra = a[1]
        eng.prove(st, bv(extra, 64) >= 0, 'requires of alloc: size is not negative')
        if self.arena_check: self.arena_check(eng, st, a[0])
        eng.assume(st, z3.ULT(bv(extra, 64), self.ROOM))
        eng.trusted.add('the value heap is not exhausted (allocation succeeds)')
        b = alloc_obj(eng, st, simp(bv(extra, 64) + 8))
        return HP(b)
    arena_check = None

    def c_linemap(self, eng, st, a, ins):
        cls, ta, meth = callinfo(eng, ins)
        m = the_obj(eng, st, a[0], 'map')
        endp = RP(a[0].r, 0, a[0].off + 8)
        if meth == 'end': return endp
        if meth != 'find': raise Undecided('map::' + meth)
        k = bv(eng.load(st, a[1], INT(32)), 32)

        def present(s):
            r = eng.new_reg(s, 'rbnode')
            r.cells[32] = (4, k)
            r.cells[36] = (4, m.file(k))
            r.cells[40] = (4, m.line(k))
            return RP(r.id)
        return [Alt(m.has(k), present), Alt(z3.Not(m.has(k)), lambda s: endp)]

    def host_call(self, eng, st, cal, av, ins):
        """assumed contract of host callbacks: they are invoked with the given arguments, return an arbitrary
        bool and leave the VM state alone (the interpreter's own reaction to the answer is what is verified)"""
        args = []
        for p in av:
            if isinstance(p, RP) and p.r == self.strs: args.append(('strref', bv(p.idx, 64)))
            elif isinstance(p, RP): args.append(('reg', p.r, p.off))
            elif isinstance(p, Ptr): args.append(('val', eng.hbase(p)))
            else: args.append(('int', bv(p, 32)))
        n = len(st.log)
        eng.trusted.add('host callbacks (handlers, system calls) return and leave VM state alone')
        st.log.append(('host', cal.kind, cal.t, args))
        if cal.kind == 'syscall': return None
        return z3.Bool('host.ret.%d' % n)

    # ---- pre-state
    def make(self, eng, nm=''):
        o = self.offs
        st = State()
        heap_init(eng, st, self.E)
        T = eng.new_reg(st, 'thread')
        V = eng.new_reg(st, 'vm')
        P = eng.new_reg(st, 'program')
        G = eng.new_reg(st, 'gc')
        self.T, self.V, self.P, self.G = T.id, V.id, P.id, G.id

        def lazy_ints(prefix):
            def f(eng, st, r, off, ty):
                if ty.k == 'ptr': return Opq(z3.BitVec('%s.p%d' % (prefix, off), 64))
                if ty.k == 'int': return z3.BitVec('%s.%d.%d' % (prefix, off, max(ty.w, 8)), max(ty.w, 8))
                return z3.fpBVToFP(z3.BitVec('%s.%d.32' % (prefix, off), 32), F32)
            return f
        T.lazy, V.lazy, P.lazy, G.lazy = (lazy_ints(x) for x in ('thread', 'vm', 'program', 'gc'))
        self.f = {}
        for f, w in (('waits', 32), ('error_', 32), ('cycles_', 32), ('pc_', 32)):
            x = z3.BitVec('thread.' + f, w)
            T.cells[o('thread_t', f)] = (w // 8, x)
            self.f[f] = x
        for f in ('finished_', 'halted_'):
            x = z3.BitVec('thread.' + f, 8)
            T.cells[o('thread_t', f)] = (1, x)
            eng.assume(st, z3.ULE(x, 1))
            self.f[f] = x
        ll = o('thread_t', 'last_line_')
        for f in ('file', 'line'):
            T.cells[ll + o('line_t', f)] = (4, z3.BitVec('thread.last_line.' + f, 32))
        T.cells[o('thread_t', 'vm_')] = (8, RP(V.id))
        T.cells[o('thread_t', 'gc_')] = (8, RP(G.id))
        vs = o('thread_t', 'stack_')
        T.cells[vs + o('value_stack_t', 'thread_')] = (8, RP(T.id))
        T.cells[vs + o('value_stack_t', 'gc_')] = (8, RP(G.id))
        T.cells[o('thread_t', 'user_data')] = (8, Opq(z3.BitVec('thread.user_data', 64)))
        # vectors
        def vec(reg, off, name, Ty, limit=1 << 30):
            n = z3.BitVec(name + '.n', 64)
            eng.assume(st, z3.ULT(n, limit))
            r = mk_seq(eng, st, name, Ty, n)
            reg.objs[off] = Vec(r.id, Ty)
            return r
        self.stk = vec(T, vs + o('value_stack_t', 'stack_'), 'stack', 'nano::value_t*').id
        fr = vec(T, o('thread_t', 'f_'), 'frames', 'nano::frame_t')
        self.frm = fr.id
        self.n0 = st.regs[self.stk].n
        self.fn0 = fr.n
        T.objs[o('thread_t', 'breakpoints_')] = LineSet('breakpoints')
        if not self.breakpoints: eng.assume(st, T.objs[o('thread_t', 'breakpoints_')].e)
        # vm
        V.cells[o('vm_t', 'program_')] = (8, RP(P.id))
        V.cells[o('vm_t', 'gc_')] = (8, RP(G.id))
        self.glb = vec(V, o('vm_t', 'g_'), 'globals', 'nano::value_t*').id
        h0 = o('vm_t', 'handlers')
        self.handlers = {}
        for (c, f), off in self.t.offs.items():
            if c == 'handlers_t':
                t = z3.BitVec('handler.' + f, 64)
                self.handlers[f] = t
                V.cells[h0 + off] = (8, HostFn(t, f))
        # program
        code = vec(P, o('program_t', 'code_'), 'code', 'unsigned char')
        self.code = code.id
        self.codef = z3.Function('code.f0_1', B64, z3.BitVecSort(8))
        s = vec(P, o('program_t', 'strings_'), 'strings', STR_T)
        self.strtab_sid = z3.Function('strtab', B64, B64)
        s.f[0, 'string'] = Fun(lambda i: sv_of_sid(self.strtab_sid(bv(i, 64))))
        self.strs = s.id
        fn = vec(P, o('program_t', 'functions_'), 'functions', 'nano::function_t')
        self.fns = fn.id
        self.nargs = z3.Function('functions.nargs', B64, B64)
        self.nlocals = z3.Function('functions.nlocals', B64, B64)
        fsid = z3.Function('functions.name', B64, B64)
        self.fname = fsid
        a_off, l_off, n_off = o('function_t', 'args_'), o('function_t', 'locals_'), o('function_t', 'name_')

        def elobj(eng, st, r, p, kind, Ty):
            if kind == 'string' and p.off == n_off: return sv_of_sid(fsid(bv(p.idx, 64)))
            if kind == 'vector' and p.off in (a_off, l_off):
                nf = self.nargs if p.off == a_off else self.nlocals
                rid = 'functions.vec%d[%s]' % (p.off, p.idx)
                if rid not in st.regs:
                    q = Reg(rid, rid, 'seq')
                    q.es, q.n = tsize(eng, 'nano::identifier_t'), nf(bv(p.idx, 64))
                    eng.assume(st, z3.ULT(q.n, 1 << 16))
                    st.regs[rid] = q
                return Vec(rid, 'nano::identifier_t')
            raise Undecided('function element object')
        fn.meta = dict(fn.meta, elobj=elobj)
        sc = vec(P, o('program_t', 'syscalls_'), 'syscalls', 'nano::program_t::syscall_entry_t')
        self.scs = sc.id
        self.scfn = z3.Function('syscalls.f%d_8' % o('program_t::syscall_entry_t', 'call_'), B64, B64)
        sc.meta = dict(sc.meta, wrap=lambda eng, st, v, p: HostFn(v, 'syscall'))
        ssid = z3.Function('syscalls.name', B64, B64)
        sc.f[o('program_t::syscall_entry_t', 'name_'), 'string'] = Fun(lambda i: sv_of_sid(ssid(bv(i, 64))))
        P.objs[o('program_t', 'line_table_')] = LineMap('lines')
        self.lines = P.objs[o('program_t', 'line_table_')]
        self.st0 = st
        return st

    def copy_initial(self, st_impl):
        """a fresh specification state sharing the impl path's facts"""
        s = self.st0.fork()
        s.pc = list(st_impl.pc)
        s.quant = list(st_impl.quant)
        s.ghost = dict(st_impl.ghost)
        return s


class Tape(Exception):
    pass


class SpecFail(Exception):
    pass


class Spec:
    """specification-side interpreter: ordinary python with branch(); re-executed along a decision tape"""

    def __init__(self, w, eng, st, tape, fresh_pool):
        self.w, self.eng, self.st, self.tape, self.pos = w, eng, st, tape, 0
        self.pool = list(fresh_pool)
        self.E = w.E
        self.o = w.offs
        self.trail = []

    def b(self, cond):
        """branch on a condition"""
        if isinstance(cond, bool): return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pos < len(self.tape):
            d = self.tape[self.pos]
            self.pos += 1
        else:
            t = self.eng.feasible(cond)
            f = self.eng.feasible(z3.Not(cond))
            if t and f: raise Tape()
            if not t and not f: raise PathEnd()
            d = t
            self.tape.append(d)
            self.pos += 1
        self.eng.assume(self.st, cond if d else z3.Not(cond))
        self.trail.append(bool(d))
        return d

    # ---------------- thread fields
    def fo(self, f): return self.o('thread_t', f)

    def get(self, f):
        return self.st.regs[self.w.T].cells[self.fo(f)][1]

    def set(self, f, v):
        r = self.st.wr(self.w.T)
        c = r.cells[self.fo(f)]
        r.cells[self.fo(f)] = (c[0], v if not is_c(v) else z3.BitVecVal(v, c[0] * 8))

    @property
    def pc(self): return self.get('pc_')

    def jump(self, v): self.set('pc_', simp_keep(v))

    def opcode(self):
        p = z3.SignExt(32, self.pc)
        v = self.w.codef(z3.simplify(p))
        self.jump(self.pc + 1)
        return v

    def operand(self):
        p = self.pc
        bs = [self.w.codef(z3.simplify(z3.SignExt(32, p) + i)) for i in range(4)]
        self.jump(p + 4)
        return z3.simplify(z3.Concat(*reversed(bs)))

    def error(self, name):
        self.set('error_', self.E[name])
        self.set('finished_', 1)

    # ---------------- stack
    @property
    def n(self): return self.st.regs[self.w.stk].n

    def depth(self): return bv(self.n, 64)

    def at(self, i):
        r = self.st.regs[self.w.stk]
        f = self.eng.seq_field(self.st, r, 0, 8, PTR)
        t = f.read(simp(bv(i, 64)))
        t = z3.simplify(t) if z3.is_expr(t) else t
        self.st.heap['ptr'](self.eng, self.st, t)
        return t

    def setat(self, i, v):
        r = self.st.wr(self.w.stk)
        f = self.eng.seq_field(self.st, r, 0, 8, PTR)
        self.st.wr(self.w.stk).f[0, 8] = f.write(simp(bv(i, 64)), v)

    def pop(self):
        n = self.n
        v = self.at(simp(bv(n, 64) - 1))
        self.st.wr(self.w.stk).n = simp(bv(n, 64) - 1)
        return v

    def drop(self, k):
        self.st.wr(self.w.stk).n = simp(bv(self.n, 64) - bv(k, 64))

    def push(self, v):
        n = self.n
        self.setat(n, v)
        self.st.wr(self.w.stk).n = simp(bv(n, 64) + 1)

    def push_range(self, k, f):
        """push k values f(j)"""
        r = self.st.wr(self.w.stk)
        g = self.eng.seq_field(self.st, r, 0, 8, PTR)
        r = self.st.wr(self.w.stk)
        r.f[0, 8] = g.range(r.n, bv(k, 64), f)
        r.n = simp(bv(r.n, 64) + bv(k, 64))

    NONE = z3.BitVecVal(0, 64)

    # ---------------- values
    def touch(self, b): self.st.heap['touch'](self.eng, self.st, b)

    def is_none(self, p): return p == 0 if not is_fresh_base(p) else z3.BoolVal(False)

    def ty(self, p):
        """type with none for null"""
        self.touch(p)
        return z3.If(p == 0, z3.BitVecVal(self.E['val_type_none'], 32), self.st.heap['t'].read(p))

    def isa(self, p, *names):
        t = self.ty(p)
        return z3.Or([t == self.E['val_type_' + n] for n in names])

    def v(self, p): return self.st.heap['v'].read(p)
    def fl(self, p): return z3.fpBVToFP(self.v(p), F32)

    def num(self, p):
        """as float"""
        return z3.If(self.st.heap['t'].read(p) == self.E['val_type_int'], z3.fpSignedToFP(RNE, self.v(p), F32), self.fl(p))

    def truth(self, p):
        t = self.ty(p)
        E = self.E
        z = self.v(p)
        return z3.If(z3.Or(t == E['val_type_array'], t == E['val_type_func'], t == E['val_type_syscall']), z3.BoolVal(True),
                     z3.If(t == E['val_type_none'], z3.BoolVal(False),
                           z3.If(t == E['val_type_float'], z3.Not(z3.fpEQ(self.fl(p), z3.FPVal(0.0, F32))), z != 0)))

    def byte(self, p, i): return self.st.heap['p8'].read(p, i)
    def elem(self, p, i):
        t = z3.simplify(self.st.heap['p64'].read(p, simp(i)))
        self.st.heap['ptr'](self.eng, self.st, t)
        return t

    def _new(self, size):
        nm = self.pool.pop(0) if self.pool else z3.BitVec('%sspec%d' % (FRESH_PREFIX, len(self.st.fresh)), 64)
        b = alloc_obj(self.eng, self.st, size, nm)
        return b

    def new(self, tname, v):
        b = self._new(z3.BitVecVal(8, 64))
        H = self.st.heap
        H['t'] = H['t'].write(b, 0, z3.BitVecVal(self.E['val_type_' + tname], 32))
        H['v'] = H['v'].write(b, 0, v if z3.is_expr(v) else z3.BitVecVal(v, 32))
        return b

    def new_int(self, v): return self.new('int', v)
    def new_bool(self, c): return self.new('int', z3.If(c, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
    def new_float(self, f): return self.new('float', z3.fpToIEEEBV(f))

    def new_str(self, sv):
        """sv: SV"""
        n = bv(sv.n, 64)
        b = self._new(simp_keep(n + 9))
        H = self.st.heap
        H['t'] = H['t'].write(b, 0, z3.BitVecVal(self.E['val_type_string'], 32))
        H['v'] = H['v'].write(b, 0, z3.simplify(z3.Extract(31, 0, n)))
        f = sv.fun
        H['p8'] = H['p8'].range(b, 0, n, lambda k: bv(f.read(k), 8)).write(b, n, z3.BitVecVal(0, 8))
        return b

    def new_arr(self, n, f):
        n64 = z3.SignExt(32, n) if n.size() == 32 else n
        b = self._new(simp_keep(n64 * 8 + 8))
        H = self.st.heap
        H['t'] = H['t'].write(b, 0, z3.BitVecVal(self.E['val_type_array'], 32))
        H['v'] = H['v'].write(b, 0, z3.simplify(z3.Extract(31, 0, n64)))
        H['p64'] = H['p64'].range(b, 0, n64, f)
        return b

    def strval(self, p):
        """SV of a heap string"""
        H = self.st.heap
        f = H['p8']
        return SV(z3.simplify(z3.SignExt(32, self.v(p))), Fun(lambda i: f.read(p, i)))

    # ---------------- text
    def lit(self, b): return sv_lit(b)
    def cat(self, a, b): return sv_cat(a, b)
    def int_text(self, v): return int_text(self.eng, self.st, v)
    def float_text(self, f): return float_text(self.eng, self.st, f)
    def streq(self, a, b): return str_eq(self.eng, self.st, a, b)
    def str_const(self, i): return sv_of_sid(self.w.strtab_sid(z3.simplify(z3.SignExt(32, i))))
    def const_is(self, i, b): return self.w.strtab_sid(z3.simplify(z3.SignExt(32, i))) == lit_sid(b)

    # ---------------- calls
    def syscall_target(self, i): return self.w.scfn(z3.simplify(z3.SignExt(32, i)))
    def resolved(self, i): return self.syscall_target(i) != 0
    def callee_nargs(self, addr): return z3.Extract(31, 0, self.w.nargs(self.w.callee_idx))
    def self_arg(self): return ('reg', self.w.T, 0)
    def member_arg(self, op): return ('strref', z3.simplify(z3.SignExt(32, op)))

    # ---------------- bulk
    def top_values(self, n64):
        base = simp_keep(self.depth() - n64)
        f = self.eng.seq_field(self.st, self.st.regs[self.w.stk], 0, 8, PTR)
        return lambda k: f.read(simp(base + bv(k, 64)))

    def reset_globals(self, n64):
        self.eng.seq_field(self.st, self.st.wr(self.w.glb), 0, 8, PTR)
        w = self.st.wr(self.w.glb)
        w.n = n64
        w.f[0, 8] = w.f[0, 8].range(0, w.n, lambda j: z3.BitVecVal(0, 64))

    def new_like(self, v):
        b = self._new(z3.BitVecVal(8, 64))
        H = self.st.heap
        H['t'] = H['t'].write(b, 0, H['t'].read(v))
        H['v'] = H['v'].write(b, 0, H['v'].read(v))
        return b

    def set_elem(self, a, i, x):
        H = self.st.heap
        H['p64'] = H['p64'].write(a, i, x)

    # ---------------- frames / globals
    @property
    def nframes(self): return bv(self.st.regs[self.w.frm].n, 64)

    FW = {'sp_': 4, 'return_': 4, 'callee_': 4, 'terminal_': 1}

    def frame(self, f, i=None):
        r = self.st.regs[self.w.frm]
        i = simp(bv(r.n, 64) - 1) if i is None else i
        return self.eng.seq_field(self.st, r, self.o('frame_t', f), self.FW[f], INT(self.FW[f] * 8)).read(i)

    def push_frame(self, **kw):
        r = self.st.regs[self.w.frm]
        i = r.n
        for f, v in kw.items():
            key = (self.o('frame_t', f), self.FW[f])
            g = self.eng.seq_field(self.st, self.st.regs[self.w.frm], key[0], key[1], INT(key[1] * 8))
            self.st.wr(self.w.frm).f[key] = g.write(i, bv(v, self.FW[f] * 8))
        self.st.wr(self.w.frm).n = simp(bv(i, 64) + 1)

    def set_frame(self, f, v):
        r = self.st.regs[self.w.frm]
        key = (self.o('frame_t', f), self.FW[f])
        g = self.eng.seq_field(self.st, r, key[0], key[1], INT(key[1] * 8))
        self.st.wr(self.w.frm).f[key] = g.write(simp(bv(r.n, 64) - 1), bv(v, self.FW[f] * 8))

    def pop_frame(self):
        r = self.st.wr(self.w.frm)
        r.n = simp(bv(r.n, 64) - 1)

    @property
    def nglobals(self): return bv(self.st.regs[self.w.glb].n, 64)

    def glob(self, i):
        r = self.st.regs[self.w.glb]
        t = z3.simplify(self.eng.seq_field(self.st, r, 0, 8, PTR).read(simp(i)))
        self.st.heap['ptr'](self.eng, self.st, t)
        return t

    def set_glob(self, i, v):
        r = self.st.regs[self.w.glb]
        g = self.eng.seq_field(self.st, r, 0, 8, PTR)
        self.st.wr(self.w.glb).f[0, 8] = g.write(simp(i), v)

    def host(self, kind, term, args):
        n = len(self.st.log)
        self.st.log.append(('host', kind, term, args))
        return z3.Bool('host.ret.%d' % n)

    def handler(self, kind, *args):
        """consult a host handler if installed; True when it accepted"""
        t = self.w.handlers[kind]
        if self.b(t == 0): return False
        r = self.host(kind, t, [self.self_arg()] + list(args))
        return self.b(r)


def simp_keep(v):
    return z3.simplify(v) if z3.is_expr(v) else v


# ------------------------------------------------------------------ comparison
CMP_FIELDS = ['waits', 'error_', 'cycles_', 'pc_', 'finished_', 'halted_']


def refine(w, eng, impl, spec_fn, name, fields=CMP_FIELDS, extra=None, kinds=('ret', None)):
    """prove: the impl end state is one the specification allows.  Runs the specification from the pre-state under
    the impl path condition, forking on specification branches."""
    pend = [[]]
    while pend:
        tape = pend.pop()
        eng.solver.push()
        try:
            s = w.copy_initial(impl)
            S = Spec(w, eng, s, list(tape), [b for b, _ in impl.fresh])
            try:
                spec_fn(S)
            except Tape:
                base = S.tape[:S.pos]
                pend.append(base + [True])
                pend.append(base + [False])
                continue
            except PathEnd:
                continue
            if eng.check() == z3.unsat: continue
            # facts learnt on the specification side also hold for the impl state
            impl.quant = impl.quant + [q for q in s.quant if q not in impl.quant]
            eng.spec_paths = getattr(eng, 'spec_paths', 0) + 1
            compare(w, eng, impl, s, name + '[' + ''.join('TF'[not x] for x in S.trail) + ']', fields)
            if extra: extra(eng, impl, S)
        finally:
            eng.solver.pop()


def veq(eng, a, b, w):
    a = eng.conv(a, INT(w)) if not isinstance(a, int) else a
    b = eng.conv(b, INT(w)) if not isinstance(b, int) else b
    return bv(a, w) == bv(b, w)


def compare(w, eng, impl, s, name, fields):
    T = w.T
    for f in fields:
        off = w.offs('thread_t', f)
        ci, cs = impl.regs[T].cells.get(off), s.regs[T].cells.get(off)
        if ci is None: raise Undecided('thread field %s vanished' % f)
        eng.prove(s, veq(eng, ci[1], cs[1], cs[0] * 8), name + ': thread.' + f)
    # value stack
    ni, ns = impl.regs[w.stk].n, s.regs[w.stk].n
    if eng.prove(s, bv(ni, 64) == bv(ns, 64), name + ': stack depth'):
        seq_same(w, eng, impl, s, w.stk, (0, 8), name + ': stack contents', 64)
    # frames
    ni, ns = impl.regs[w.frm].n, s.regs[w.frm].n
    if eng.prove(s, bv(ni, 64) == bv(ns, 64), name + ': call depth'):
        for f, sz in Spec.FW.items():
            seq_same(w, eng, impl, s, w.frm, (w.offs('frame_t', f), sz), name + ': frame.' + f, sz * 8)
    # globals
    ni, ns = impl.regs[w.glb].n, s.regs[w.glb].n
    if eng.prove(s, bv(ni, 64) == bv(ns, 64), name + ': number of globals'):
        seq_same(w, eng, impl, s, w.glb, (0, 8), name + ': globals', 64)
    # program image untouched
    for rid, what in ((w.code, 'bytecode'), ):
        eng.prove(s, bv(impl.regs[rid].n, 64) == bv(s.regs[rid].n, 64), name + ': program size')
        seq_same(w, eng, impl, s, rid, (0, 1), name + ': ' + what, 8)
    # log of host calls
    li, ls = [e for e in impl.log if e[0] == 'host'], [e for e in s.log if e[0] == 'host']
    if not eng.prove(s, len(li) == len(ls), name + ': host calls made (%d vs %d)' % (len(li), len(ls))): return
    for a, b in zip(li, ls):
        same = a[1] == b[1] and len(a[3]) == len(b[3])
        if not eng.prove(s, same, name + ': host call kind'): continue
        eng.prove(s, a[2] == b[2], name + ': host call target')
        for x, y in zip(a[3], b[3]):
            if y[0] == 'any': continue
            if x[0] != y[0]:
                eng.prove(s, False, name + ': host call argument kind')
            elif x[0] == 'reg': eng.prove(s, x[1:] == y[1:], name + ': host call argument')
            else: eng.prove(s, x[1] == y[1], name + ': host call argument')
    # heap
    heap_same(w, eng, impl, s, name)


def seq_same(w, eng, impl, s, rid, key, name, width):
    fi, fs = impl.regs[rid].f.get(key), s.regs[rid].f.get(key)
    if fi is None and fs is None: return
    if fi is None: fi = eng.seq_field(impl, impl.regs[rid], key[0], key[1], INT(width))
    if fs is None: fs = eng.seq_field(s, s.regs[rid], key[0], key[1], INT(width))
    if fi is fs or (fi.base is fs.base and not fi.layers and not fs.layers): return
    if not fi.layers and not fs.layers: return
    i = z3.BitVec('sk!%d' % next(_sk), 64)
    eng.solver.push()
    try:
        s2 = s.fork()
        s2.quant = list(impl.quant)
        eng.assume(s2, z3.ULT(i, bv(s.regs[rid].n, 64)))
        eng.inst(s2, i)
        a, b = fi.read(i), fs.read(i)
        eng.prove(s2, bv(a, width) == bv(b, width), name)
    finally:
        eng.solver.pop()


_sk = itertools.count()


def heap_same(w, eng, impl, s, name):
    """old objects identical in impl and spec; spec-fresh objects identical too"""
    Hi, Hs = impl.heap, s.heap
    def clean(H): return all(L[0] != 'g' and is_fresh_base(L[1]) for k in ('v', 't', 'p8', 'p64') for L in H[k].layers)
    bases = [b for b, _ in s.fresh]
    if not (clean(Hi) and clean(Hs)):
        p = z3.BitVec('skp!%d' % next(_sk), 64)
        bases = [p] + bases
    for b in bases:
        eng.solver.push()
        try:
            s2 = s.fork()
            s2.quant = list(impl.quant)
            fresh = is_fresh_base(b)
            if not fresh:
                eng.assume(s2, z3.And(Hi['OLD'](b), *[b != f for f, _ in impl.fresh + s.fresh]))
                Hs['touch'](eng, s2, b)
            tag = name + (': new value' if fresh else ': existing values')
            if fresh and not any(b is x or b.eq(x) for x, _ in impl.fresh):
                eng.prove(s2, False, tag + ' allocated')
                continue
            eng.prove(s2, Hi['t'].read(b) == Hs['t'].read(b), tag + ' type')
            t = Hs['t'].read(b)
            vi, vs = Hi['v'].read(b), Hs['v'].read(b)
            eng.prove(s2, z3.Or(vi == vs, z3.And(t == w.E['val_type_float'], z3.fpBVToFP(vi, F32) == z3.fpBVToFP(vs, F32))), tag + ' word')
            v = z3.SignExt(32, Hs['v'].read(b))
            i = z3.BitVec('sk!%d' % next(_sk), 64)
            E = w.E
            for kind, m, lim in (('string', 'p8', v + 1), ('array', 'p64', v)):
                c = t == E['val_type_' + kind]
                if fresh and not eng.feasible(c): continue
                if not fresh and not any(True for H in (Hi, Hs) for L in H[m].layers if L[0] == 'g' or not is_fresh_base(L[1])): continue
                eng.solver.push()
                try:
                    s3 = s2.fork()
                    eng.assume(s3, c)
                    eng.assume(s3, z3.ULT(i, lim))
                    eng.inst(s3, i)
                    if kind == 'string': eng.inst(s3, simp(i))
                    eng.prove(s3, Hi[m].read(b, i) == Hs[m].read(b, i), tag + ' ' + kind + ' contents')
                    if fresh:
                        # the payload lies inside the block
                        need = (v + 9) if kind == 'string' else v * 8 + 8
                        eng.prove(s3, z3.ULE(need, Hi['size'].read(b)), tag + ' ' + kind + ' fits its block')
                finally:
                    eng.solver.pop()
        finally:
            eng.solver.pop()
