"""Contracts of the interpreter: one specification transformer per opcode, over the whole thread view."""
import z3
from .sx import *
from .world import *
from .world import Spec, refine, simp_keep
from .models import SV, sv_lit, sv_cat, int_text, float_text, sv_of_sid, str_eq

FZ = lambda: z3.FPVal(0.0, F32)


def args2(l, r): return [('val', l), ('val', r)]


def text_of(S, p):
    """textual form used by concatenation; None when the value has none"""
    if S.b(S.isa(p, 'string')): return S.strval(p)
    if S.b(S.isa(p, 'int')): return S.int_text(S.v(p))
    if S.b(S.isa(p, 'float')): return S.float_text(S.fl(p))
    if S.b(S.is_none(p)): return S.lit(b'none')
    if S.b(S.isa(p, 'func')): return S.cat(S.lit(b'function@'), S.int_text(S.v(p)))
    return None


def arith(S, iop, fop, handler):
    r, l = S.pop(), S.pop()
    if S.b(z3.And(S.isa(l, 'int'), S.isa(r, 'int'))): return iop(S, l, r)
    if fop and S.b(z3.And(S.isa(l, 'int', 'float'), S.isa(r, 'int', 'float'))):
        return S.push(S.new_float(fop(S.num(l), S.num(r))))
    if handler == 'on_add' and S.b(z3.Or(S.isa(l, 'string'), S.isa(r, 'string'))):
        a = text_of(S, l)
        b = text_of(S, r)
        if a is not None and b is not None:
            return S.push(S.new_str(S.cat(a, b)))
    if handler and S.handler(handler, *args2(l, r)): return
    S.error('e_bad_type_operation')


def ADD(S): arith(S, lambda S, l, r: S.push(S.new_int(S.v(l) + S.v(r))), lambda a, b: z3.fpAdd(RNE, a, b), 'on_add')
def SUB(S): arith(S, lambda S, l, r: S.push(S.new_int(S.v(l) - S.v(r))), lambda a, b: z3.fpSub(RNE, a, b), 'on_sub')
def MUL(S): arith(S, lambda S, l, r: S.push(S.new_int(S.v(l) * S.v(r))), lambda a, b: z3.fpMul(RNE, a, b), 'on_mul')


def DIV(S):
    def d(S, l, r):
        if S.b(S.v(r) == 0): return S.error('e_bad_divide_by_zero')
        S.push(S.new_int(S.v(l) / S.v(r)))
    arith(S, d, lambda a, b: z3.fpDiv(RNE, a, b), 'on_div')


def MOD(S):
    def d(S, l, r):
        if S.b(S.v(r) == 0): return S.error('e_bad_divide_by_zero')
        S.push(S.new_int(z3.SRem(S.v(l), S.v(r))))
    arith(S, d, None, None)


def NEG(S):
    o = S.pop()
    if S.b(S.isa(o, 'int')): return S.push(S.new_int(-S.v(o)))
    S.error('e_bad_type_operation')


def AND(S):
    r, l = S.pop(), S.pop()
    S.push(S.new_bool(z3.And(S.truth(l), S.truth(r))))


def OR(S):
    r, l = S.pop(), S.pop()
    S.push(S.new_bool(z3.Or(S.truth(l), S.truth(r))))


def NOT(S):
    S.push(S.new_bool(z3.Not(S.truth(S.pop()))))


def rel(icmp, fcmp):
    def f(S):
        r, l = S.pop(), S.pop()
        if S.b(z3.And(S.isa(l, 'int'), S.isa(r, 'int'))): return S.push(S.new_bool(icmp(S.v(l), S.v(r))))
        if S.b(z3.And(S.isa(l, 'int', 'float'), S.isa(r, 'int', 'float'))): return S.push(S.new_bool(fcmp(S.num(l), S.num(r))))
        S.error('e_bad_type_operation')
    return f


LT = rel(lambda a, b: a < b, z3.fpLT)
GT = rel(lambda a, b: a > b, z3.fpGT)
LEQ = rel(lambda a, b: a <= b, z3.fpLEQ)
GEQ = rel(lambda a, b: a >= b, z3.fpGEQ)


def EQ(S):
    r, l = S.pop(), S.pop()
    if S.b(z3.And(S.isa(l, 'int'), S.isa(r, 'int'))): return S.push(S.new_bool(S.v(l) == S.v(r)))
    if S.b(z3.And(S.isa(l, 'string'), S.isa(r, 'string'))):
        return S.push(S.new_bool(S.streq(S.strval(l), S.strval(r))))
    if S.b(z3.And(S.isa(l, 'func'), S.isa(r, 'func'))): return S.push(S.new_bool(S.v(l) == S.v(r)))
    if S.b(z3.Or(S.is_none(l), S.is_none(r))): return S.push(S.new_bool(z3.And(S.is_none(l), S.is_none(r))))
    if S.b(z3.And(S.isa(l, 'int', 'float'), S.isa(r, 'int', 'float'))): return S.push(S.new_bool(z3.fpEQ(S.num(l), S.num(r))))
    if S.handler('on_equals', *args2(l, r)): return
    S.error('e_bad_type_operation')


def JMP(S): S.jump(S.operand())


def TJMP(S):
    t = S.operand()
    if S.b(S.truth(S.pop())): S.jump(t)


def FJMP(S):
    t = S.operand()
    if S.b(z3.Not(S.truth(S.pop()))): S.jump(t)


def enter(S, callee):
    S.push_frame(sp_=z3.simplify(z3.Extract(31, 0, S.depth())), return_=S.pc, callee_=callee, terminal_=0)
    S.jump(callee)


def CALL(S):
    S.operand()
    enter(S, S.operand())


def RET(S):
    k = S.operand()
    v = S.pop()
    if S.b(z3.Extract(31, 0, S.depth()) < k): return S.error('e_stack_underflow')
    S.drop(z3.SignExt(32, k))
    S.push(v)
    if S.b(S.nframes == 0):
        S.error('e_stack_underflow')
        S.jump(z3.BitVecVal(0, 32))
        return
    ret, term = S.frame('return_'), S.frame('terminal_')
    S.pop_frame()
    S.jump(ret)
    S.set('finished_', simp_keep(z3.If(z3.Or(term != 0, S.nframes == 0), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))))


def call_host(S, idx, nargs):
    if not S.b(S.resolved(idx)): return S.error('e_bad_syscall')
    S.host('syscall', S.syscall_target(idx), [S.self_arg(), ('int', nargs)])


def SCALL(S):
    n = S.operand()
    call_host(S, S.operand(), n)


def ICALL(S):
    n = S.operand()
    c = S.pop()
    if S.b(S.isa(c, 'syscall')): return call_host(S, S.v(c), n)
    if S.b(S.isa(c, 'func')):
        addr = S.v(c)
        # the function whose code range contains addr (first match)
        if S.b(S.callee_nargs(addr) != n): return S.error('e_bad_num_args')
        return enter(S, addr)
    S.error('e_bad_type_operation')


def POP(S): S.drop(z3.SignExt(32, S.operand()))
def NEW_INT(S): S.push(S.new_int(S.operand()))
def NEW_FLT(S): S.push(S.new('float', S.operand()))
def NEW_FUNC(S): S.push(S.new('func', S.operand()))
def NEW_SCALL(S): S.push(S.new('syscall', S.operand()))
def NEW_NONE(S): S.push(S.NONE)
def NEW_STR(S): S.push(S.new_str(S.str_const(S.operand())))
def NEW_ARY(S): S.push(S.new_arr(S.operand(), lambda k: z3.BitVecVal(0, 64)))


def ARY_INIT(S):
    n = S.operand()
    n64 = z3.simplify(z3.SignExt(32, n))
    a = S.new_arr(n, S.top_values(n64))
    S.drop(n64)
    S.push(a)


def LOCALS(S):
    k = S.operand()
    S.push_range(z3.simplify(z3.SignExt(32, k)), lambda j: z3.BitVecVal(0, 64))


def GLOBALS(S):
    k = S.operand()
    if S.b(k != 0): S.reset_globals(z3.simplify(z3.SignExt(32, k)))


def slot(S):
    return z3.simplify(S.frame('sp_') + S.operand())


def GETV(S):
    i = slot(S)
    if S.b(z3.And(i >= 0, z3.SignExt(32, i) < S.depth())): return S.push(S.at(z3.SignExt(32, i)))
    S.error('e_bad_getv')
    S.push(S.NONE)


def SETV(S):
    i = slot(S)
    v = S.pop()
    if S.b(z3.And(i >= 0, z3.SignExt(32, i) < S.depth())): return S.setat(z3.SignExt(32, i), v)
    S.error('e_bad_setv')


def GETG(S):
    i = S.operand()
    if S.b(z3.And(i >= 0, z3.SignExt(32, i) < S.nglobals)): return S.push(S.glob(z3.SignExt(32, i)))
    S.error('e_bad_get_global')


def SETG(S):
    i = S.operand()
    if S.b(z3.And(i >= 0, z3.SignExt(32, i) < S.nglobals)): return S.set_glob(z3.SignExt(32, i), S.pop())
    S.error('e_bad_set_global')


def DEREF(S):
    a, i = S.pop(), S.pop()
    if S.handler('on_array_get', ('val', a), ('val', i)): return
    if S.b(S.is_none(a)): return S.error('e_bad_array_object')
    if S.b(z3.Not(S.isa(i, 'int'))): return S.error('e_bad_array_index')
    k = S.v(i)
    if S.b(S.isa(a, 'array')):
        if S.b(z3.Or(k < 0, k >= S.v(a))): return S.error('e_bad_array_bounds')
        return S.push(S.elem(a, z3.SignExt(32, k)))
    if S.b(S.isa(a, 'string')):
        if S.b(z3.Or(k < 0, k >= S.v(a))): return S.error('e_bad_array_bounds')
        return S.push(S.new_int(z3.ZeroExt(24, S.byte(a, z3.simplify(z3.SignExt(32, k))))))
    S.error('e_bad_type_operation')


def copy_value(S, v):
    if S.b(S.is_none(v)): return S.NONE
    if S.b(S.isa(v, 'string')): return S.new_str(S.strval(v))
    return S.new_like(v)


def SETA(S):
    a, i, v = S.pop(), S.pop(), S.pop()
    if S.handler('on_array_set', ('val', a), ('val', i), ('val', v)): return
    if S.b(z3.Not(S.isa(a, 'array'))): return S.error('e_bad_array_object')
    if S.b(z3.Not(S.isa(i, 'int'))): return S.error('e_bad_array_index')
    k = S.v(i)
    if S.b(z3.Or(k < 0, k >= S.v(a))): return S.error('e_bad_array_bounds')
    x = v if S.b(S.isa(v, 'array')) else copy_value(S, v)
    S.set_elem(a, z3.simplify(z3.SignExt(32, k)), x)


def GETM(S):
    o = S.pop()
    op = S.operand()
    if S.b(z3.And(S.isa(o, 'array'), S.const_is(op, b'length'))): return S.push(S.new_int(S.v(o)))
    if S.handler('on_member_get', ('val', o), S.member_arg(op)): return
    S.error('e_bad_member_access')


def SETM(S):
    o, e = S.pop(), S.pop()
    op = S.operand()
    if S.handler('on_member_set', ('val', o), ('val', e), S.member_arg(op)): return
    S.error('e_bad_member_access')


# opcode -> (spec, pops required on stack, operand words, extra precondition)
def _pos(S_op): return S_op > 0


OPS = {
    'ADD': (ADD, 2, 0), 'SUB': (SUB, 2, 0), 'MUL': (MUL, 2, 0), 'DIV': (DIV, 2, 0), 'MOD': (MOD, 2, 0),
    'AND': (AND, 2, 0), 'OR': (OR, 2, 0), 'NOT': (NOT, 1, 0), 'NEG': (NEG, 1, 0),
    'LT': (LT, 2, 0), 'GT': (GT, 2, 0), 'LEQ': (LEQ, 2, 0), 'GEQ': (GEQ, 2, 0), 'EQ': (EQ, 2, 0),
    'JMP': (JMP, 0, 1), 'TJMP': (TJMP, 1, 1), 'FJMP': (FJMP, 1, 1), 'CALL': (CALL, 0, 2), 'RET': (RET, 1, 1),
    'SCALL': (SCALL, 0, 2), 'ICALL': (ICALL, 1, 1), 'POP': (POP, 0, 1), 'NEW_INT': (NEW_INT, 0, 1),
    'NEW_STR': (NEW_STR, 0, 1), 'NEW_ARY': (NEW_ARY, 0, 1), 'NEW_NONE': (NEW_NONE, 0, 0), 'NEW_FLT': (NEW_FLT, 0, 1),
    'NEW_FUNC': (NEW_FUNC, 0, 1), 'NEW_SCALL': (NEW_SCALL, 0, 1), 'LOCALS': (LOCALS, 0, 1), 'GLOBALS': (GLOBALS, 0, 1),
    'GETV': (GETV, 0, 1), 'SETV': (SETV, 1, 1), 'DEREF': (DEREF, 2, 0), 'SETA': (SETA, 3, 0), 'GETG': (GETG, 0, 1),
    'SETG': (SETG, 1, 1), 'GETM': (GETM, 1, 1), 'SETM': (SETM, 2, 1), 'ARY_INIT': (ARY_INIT, 0, 1),
}


def precondition(w, eng, st, op):
    """what the compiler guarantees about well-formed bytecode (stated in DESIGN.md)"""
    _, pops, words = OPS[op]
    pc = w.f['pc_']
    pc64 = z3.SignExt(32, pc)
    n = w.st0.regs[w.code].n
    eng.assume(st, pc >= 0)
    eng.assume(st, n > 8)
    eng.assume(st, z3.ULT(pc64 + 1 + 4 * words, n))
    eng.assume(st, w.codef(pc64) == w.E['INS_' + op])
    eng.assume(st, z3.UGE(w.n0, pops))
    eng.assume(st, z3.ULT(w.n0, 1 << 20))
    eng.assume(st, w.f['error_'] == 0)
    eng.assume(st, w.f['finished_'] == 0)
    eng.assume(st, w.fn0 != 0)
    def opnd(k):
        return z3.Concat(*[w.codef(pc64 + 1 + 4 * k + i) for i in (3, 2, 1, 0)])
    o64 = lambda k: z3.SignExt(32, opnd(k))
    if op in ('POP', 'ARY_INIT'):
        eng.assume(st, z3.And(opnd(0) >= 0, z3.ULE(o64(0), w.n0)))
    if op in ('ARY_INIT', 'NEW_ARY'): eng.assume(st, z3.And(opnd(0) > 0, opnd(0) < (1 << 17)))
    if op in ('LOCALS', 'GLOBALS'): eng.assume(st, z3.And(opnd(0) >= 0, opnd(0) < (1 << 20)))
    if op == 'RET':
        eng.assume(st, z3.And(opnd(0) >= 0))
        eng.assume(st, z3.ULE(z3.Function('frames.f%d_1' % w.offs('frame_t', 'terminal_'), B64, z3.BitVecSort(8))(w.fn0 - 1), 1))
    if op in ('NEW_FUNC', 'NEW_SCALL'): eng.assume(st, opnd(0) >= 0)
    if op in ('NEW_STR', 'GETM', 'SETM'):
        eng.assume(st, z3.And(opnd(0) >= 0, z3.ULT(o64(0), st.regs[w.strs].n)))
        from .models import _slen
        eng.assume(st, z3.ULT(_slen(w.strtab_sid(o64(0))), 1 << 17))
    if op == 'SCALL':
        eng.assume(st, z3.And(opnd(1) >= 0, z3.ULT(o64(1), st.regs[w.scs].n)))
    if op in ('GETV', 'SETV'):
        # frame pointers are stack depths
        sp = z3.Function('frames.f%d_4' % w.offs('frame_t', 'sp_'), B64, B32)(w.fn0 - 1)
        eng.assume(st, z3.And(sp >= 0, sp < (1 << 24), opnd(0) > -(1 << 24), opnd(0) < (1 << 24)))
    if op == 'ICALL':
        # function references denote existing functions, syscall references existing entries
        f = z3.BitVec('callee.idx', 64)
        w.callee_idx = f
        eng.ghost_terms.append(f)
        top = z3.Function('stack.f0_8', B64, B64)(w.n0 - 1)
        V0, T0 = z3.Function('heap.v', B64, B32), z3.Function('heap.t', B64, B32)
        cs = z3.Function('functions.f%d_4' % w.offs('function_t', 'code_start_'), B64, B32)
        ce = z3.Function('functions.f%d_4' % w.offs('function_t', 'code_end_'), B64, B32)
        a = V0(top)
        isf = z3.And(top != 0, T0(top) == w.E['val_type_func'])
        eng.assume(st, z3.Implies(isf, z3.And(z3.ULT(f, st.regs[w.fns].n), a >= cs(f), a < ce(f))))
        # code ranges of functions are disjoint: an address lies in one range only
        st.quant.append(lambda i: z3.Implies(z3.And(isf, z3.ULT(bv(i, 64), st.regs[w.fns].n), bv(i, 64) != f), z3.Not(z3.And(a >= cs(bv(i, 64)), a < ce(bv(i, 64))))))
        eng.assume(st, z3.Implies(z3.And(top != 0, T0(top) == w.E['val_type_syscall']),
                                  z3.And(a >= 0, z3.ULT(z3.SignExt(32, a), st.regs[w.scs].n))))


def step_spec(op):
    f = OPS[op][0]

    def spec(S):
        pc0 = S.pc
        S.opcode()
        f(S)
        e = S.get('error_')
        if (e != 0) if isinstance(e, int) else S.b(bv(e, 32) != 0): S.jump(pc0)
        S.set('cycles_', z3.simplify(S.get('cycles_') + 1))
    return spec
