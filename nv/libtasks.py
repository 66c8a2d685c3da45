"""Builtin functions: each against a specification transformer over the whole thread state (property C09)."""
import re
import z3
from .sx import *
from .world import *
from .world import refine, B64, B32
from .models import SV, model, sv_lit
from .models import *
from .ir import INT, PTR
from .task import Task, standin
from .vmtasks import find1

LIBM = {n: z3.Function('libm.' + n, F32, F32) for n in ('sin', 'cos', 'tan')}
RND = {'round': z3.RNA(), 'floor': z3.RTN(), 'ceil': z3.RTP()}


def libm(eng, st, a, ins):
    n = ins.a[1][1]
    nm = re.sub(r'^llvm\.|\.f32$', '', n)
    nm = re.sub(r'f$', '', nm) if nm not in LIBM and nm not in RND and nm not in ('sqrt', 'fabs') else nm
    if nm == 'fabs' or nm == 'fab': return z3.fpAbs(a[0])
    if nm == 'sqrt': return z3.fpSqrt(RNE, a[0])
    if nm in RND: return z3.fpRoundToIntegral(RND[nm], a[0])
    eng.trusted.add('sinf, cosf and tanf of the C library compute the mathematical function')
    return LIBM[nm](a[0])


class LibWorld(World):
    find_contract = False

    def engine(self, **kw):
        e = World.engine(self, **kw)
        e.contracts = [(re.compile(r'^(sin|cos|tan|round|floor|ceil|sqrt|fabs)f$|^llvm\.(sin|cos|tan|round|floor|ceil|sqrt|fabs)\.f32$'), libm),
                       (re.compile(r'^nano::vm_t::new_thread\('), self.c_new_thread)] + e.contracts
        if self.find_contract: e.contracts.insert(0, (re.compile(r'^nano::program_t::function_find\(int\)'), self.c_find))
        return e

    def make(self, eng, nm=''):
        st = World.make(self, eng, nm)
        self.argn = z3.BitVec('arg.nargs', 32)
        eng.assume(st, z3.And(self.argn >= 0, self.argn < (1 << 16), z3.ULE(z3.SignExt(32, self.argn), bv(self.n0, 64))))
        return st

    def c_find(self, eng, st, a, ins):
        """program_t::function_find(pc): proved as task function_find"""
        eng.prove(st, bv(a[1], 32) == self.callee_pc, 'new_thread: looks up the function value itself')
        return [Alt(self.callee_ex, lambda s: RP(self.fns, self.callee_idx)), Alt(z3.Not(self.callee_ex), lambda s: NULL)]

    def c_new_thread(self, eng, st, a, ins):
        """vm_t::new_thread: its own contract is property C07; here: it receives the function and the arguments in order"""
        fn, n, p = a[1], bv(a[2], 32), a[3]
        eng.prove(st, n == self.argn - 1, 'new_thread: passes every argument on')
        k = z3.BitVec('sk.k', 64)
        n64 = z3.SignExt(32, n)
        ok = isinstance(p, RP) or isinstance(p, (Null, Opq))
        eng.prove(st, ok, 'new_thread: passes the arguments')
        if isinstance(p, RP):
            f = eng.seq_field(st, st.regs[p.r], 0, 8, PTR)
            v = f.read(simp(bv(p.idx, 64) + k))
            v = eng.hbase(v) if isinstance(v, Ptr) else v
            want = z3.Function('stack.f0_8', B64, B64)(z3.simplify(bv(self.n0, 64) - n64 + k))
            eng.prove(st, z3.Implies(z3.ULT(k, n64), v == want), 'new_thread: the arguments keep their order')
        st.log.append(('host', 'new_thread', None, [('reg', fn.r, 0), ('val', bv(fn.idx, 64))] if isinstance(fn, RP) else [('reg', -1, 0)]))
        return Opq(z3.BitVec('new.thread', 64))


def one(S, k=1):
    if S.b(S.w.argn != k):
        S.error('e_bad_num_args')
        return False
    return True


def bad(S): S.error('e_bad_argument')


def abs_(S):
    if not one(S): return
    p = S.pop()
    if S.b(S.isa(p, 'int')): return S.push(S.new_int(z3.If(S.v(p) < 0, -S.v(p), S.v(p))))
    if S.b(S.isa(p, 'float')): return S.push(S.new_float(z3.If(z3.fpLT(S.fl(p), z3.FPVal(0.0, F32)), z3.fpNeg(S.fl(p)), S.fl(p))))
    bad(S)


def minmax(cmp):
    def f(S):
        if not one(S, 2): return
        a, b = S.pop(), S.pop()
        if S.b(z3.And(S.isa(a, 'int', 'float'), S.isa(b, 'int', 'float'))):
            x, y = S.num(a), S.num(b)
            return S.push(S.new_float(z3.If(cmp(x, y), x, y)))
        bad(S)
    return f


def bitand(S):
    if not one(S, 2): return
    a, b = S.pop(), S.pop()
    if S.b(z3.And(S.isa(a, 'int'), S.isa(b, 'int'))): return S.push(S.new_int(S.v(a) & S.v(b)))
    bad(S)


def len_(S):
    if not one(S): return
    p = S.pop()
    if S.b(S.isa(p, 'array', 'string')): return S.push(S.new_int(S.v(p)))
    bad(S)


def chr_(S):
    if not one(S): return
    p = S.pop()
    if S.b(S.isa(p, 'int')):
        c = z3.Extract(7, 0, S.v(p))
        if S.b(c == 0): return S.push(S.new_str(sv_lit(b'')))
        return S.push(S.new_str(SV(1, Fun(lambda i: c))))
    bad(S)


def fn1(g):
    def f(S):
        if not one(S): return
        p = S.pop()
        if S.b(S.isa(p, 'int', 'float')): return S.push(S.new_float(g(S.num(p))))
        bad(S)
    return f


def as_int(S, p):
    if S.b(S.isa(p, 'int')): return S.v(p)
    return z3.fpToSBV(z3.RTZ(), S.fl(p), z3.BitVecSort(32))


def wait(S):
    if not one(S): return
    p = S.pop()
    if not S.b(S.isa(p, 'int', 'float')): return bad(S)
    v = as_int(S, p)
    if S.b(v > 0):
        S.set('waits', v)
        S.set('halted_', 1)
    else: S.set('waits', 0)
    S.push(S.new_int(z3.BitVecVal(0, 32)))


def new_array(S):
    if not one(S): return
    p = S.pop()
    if not S.b(S.isa(p, 'int', 'float')): return bad(S)
    n = as_int(S, p)
    if S.b(n <= 0): return bad(S)
    S.eng.assume(S.st, n < (1 << 20))
    S.push(S.new_arr(n, lambda k: z3.BitVecVal(0, 64)))


def pre_new_thread(w, eng, st):
    f, ex = z3.BitVec('callee.idx', 64), z3.Bool('callee.exists')
    w.callee_idx, w.callee_ex = f, ex
    eng.ghost_terms.append(f)
    V0, T0 = z3.Function('heap.v', B64, B32), z3.Function('heap.t', B64, B32)
    p = z3.Function('stack.f0_8', B64, B64)(z3.simplify(bv(w.n0, 64) - z3.SignExt(32, w.argn)))
    cs, ce = (z3.Function('functions.f%d_4' % w.offs('function_t', n), B64, B32) for n in ('code_start_', 'code_end_'))
    a = w.callee_pc = V0(p)
    isf = z3.And(w.argn > 0, p != 0, T0(p) == w.E['val_type_func'])
    n = st.regs[w.fns].n
    eng.assume(st, z3.Implies(z3.And(isf, ex), z3.And(z3.ULT(f, n), a >= cs(f), a < ce(f))))
    st.quant.append(lambda i: z3.Implies(z3.And(isf, z3.ULT(bv(i, 64), n), z3.Or(z3.Not(ex), bv(i, 64) != f)), z3.Not(z3.And(a >= cs(bv(i, 64)), a < ce(bv(i, 64))))))


def new_thread(S):
    w = S.w
    if S.b(w.argn <= 0): return bad(S)
    S.drop(z3.SignExt(32, w.argn) - 1)
    p = S.pop()
    if not S.b(S.isa(p, 'func')): return bad(S)
    if not S.b(w.callee_ex): return bad(S)
    if S.b(w.nargs(w.callee_idx) + 1 != z3.SignExt(32, w.argn)): return bad(S)
    S.st.log.append(('host', 'new_thread', None, [('reg', w.fns, 0), ('val', w.callee_idx)]))
    S.push(S.new_int(z3.BitVecVal(0, 32)))


SPEC = {'abs': abs_, 'max': minmax(z3.fpGT), 'min': minmax(z3.fpLT), 'bitand': bitand, 'len': len_, 'chr': chr_,
        'sin': fn1(lambda x: LIBM['sin'](x)), 'cos': fn1(lambda x: LIBM['cos'](x)), 'tan': fn1(lambda x: LIBM['tan'](x)),
        'round': fn1(lambda x: z3.fpRoundToIntegral(RND['round'], x)), 'floor': fn1(lambda x: z3.fpRoundToIntegral(RND['floor'], x)),
        'ceil': fn1(lambda x: z3.fpRoundToIntegral(RND['ceil'], x)), 'sqrt': fn1(lambda x: z3.fpSqrt(RNE, x)), 'wait': wait, 'new_array': new_array, 'new_thread': new_thread}


def t_builtin(n):
    def body(T, setup):
        w = LibWorld(T)
        w.find_contract = n == 'new_thread'
        eng = setup(w.engine())
        st = w.make(eng)
        if n == 'new_thread': pre_new_thread(w, eng, st)
        w.st0 = st.fork()
        eng.canary = False

        def end(s, k, v):
            if k != 'ret':
                eng.prove(s, False, n + ': throws')
                return
            if not eng.canary and eng.check() == z3.sat: eng.canary = True
            refine(w, eng, s, SPEC[n], n, fields=['pc_', 'error_', 'finished_', 'halted_', 'waits', 'cycles_'])
        eng.on_end = end
        eng.start(st, find1(T, r'^nano::builtin_%s\(' % n), [RP(w.T), w.argn])
        eng.run(st)
    return Task('builtin[%s]' % n, body, group='lib', info={'native': 'fn_' + n})


def t_find(const):
    def body(T, setup):
        w = LibWorld(T)
        eng = setup(w.engine())
        st = w.make(eng)
        f, ex, a = z3.BitVec('callee.idx', 64), z3.Bool('callee.exists'), z3.BitVec('arg.pc', 32)
        eng.ghost_terms.append(f)
        cs, ce = (z3.Function('functions.f%d_4' % w.offs('function_t', n), B64, B32) for n in ('code_start_', 'code_end_'))
        n = st.regs[w.fns].n
        eng.assume(st, z3.Implies(ex, z3.And(z3.ULT(f, n), a >= cs(f), a < ce(f))))
        st.quant.append(lambda i: z3.Implies(z3.And(z3.ULT(bv(i, 64), n), z3.Or(z3.Not(ex), bv(i, 64) != f)), z3.Not(z3.And(a >= cs(bv(i, 64)), a < ce(bv(i, 64))))))
        w.st0 = st.fork()
        eng.canary = False

        def end(s, k, v):
            eng.canary = True
            if isinstance(v, RP): eng.prove(s, z3.And(ex, v.r == w.fns, bv(v.idx, 64) == f) if not isinstance(v.off, int) or v.off == 0 else False, 'function_find: returns the function that contains the address')
            else: eng.prove(s, z3.Not(ex) if isinstance(v, Null) else False, 'function_find: null only when no function contains the address')
        eng.on_end = end
        eng.start(st, find1(T, r'^nano::program_t::function_find\(int\)%s$' % (' const' if const else '')), [RP(w.P), a])
        eng.run(st)
    return Task('function_find[%s]' % ('const' if const else 'mutable'), body, group='lib', info={'native': 'fn_new_thread'})


def lib_tasks(): return [t_builtin(n) for n in SPEC] + [t_find(True), t_find(False)] + [standin('builtins_register/resolve', 'names', 'random system-call tables and every builtin called with 0..3 arguments', 600)]
