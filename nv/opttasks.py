"""Constant evaluation, constant substitution and dead code removal (C10)."""
import re
import z3
from .sx import *
from .sx import Reg
from .ast import *
from .ast import AstWorld, must, spec_paths, VAR, FUN, BLK, EXPR, NODES, TYPE_OF
from .vtasks import walk_tasks, PassWorld, WLoop, KIDS, VT_OF, NP, visited_once
from .models import Vec, setup_seq, the_obj, str_eq, get_sv
from .ast import ERR_TI
from .ir import Unsupported, PTR, INT, FLOAT as FT
from .task import Task, standin
from .vmtasks import find1

LIT = 'ast_exp_lit_var_t'
BIN, UN = 'ast_exp_bin_op_t', 'ast_exp_unary_op_t'
OPS2 = 'ADD SUB MUL DIV MOD AND OR EQ LT GT LEQ GEQ'.split()


def b32(c): return z3.If(c, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))


def sem2(E, op, a, b):
    """what the virtual machine computes for two integers (C01, C02)"""
    r = {'ADD': a + b, 'SUB': a - b, 'MUL': a * b, 'DIV': z3.If(b == -1, -a, a / b), 'MOD': z3.If(b == -1, z3.BitVecVal(0, 32), z3.SRem(a, b)),
         'AND': b32(z3.And(a != 0, b != 0)), 'OR': b32(z3.Or(a != 0, b != 0)), 'EQ': b32(a == b), 'LT': b32(a < b), 'GT': b32(a > b),
         'LEQ': b32(a <= b), 'GEQ': b32(a >= b)}
    t = z3.BitVecVal(0, 32)
    for k in OPS2: t = z3.If(op == E['TOK_' + k], r[k], t)
    return t


def sem1(E, op, a): return z3.If(op == E['TOK_SUB'], -a, b32(a == 0))


def divzero(E, op, b): return z3.And(b == 0, z3.Or(op == E['TOK_DIV'], op == E['TOK_MOD']))


class OptWorld(PassWorld):
    """a pass over a tree whose names are resolved"""

    def __init__(self, T, visitor):
        PassWorld.__init__(self, T, visitor)
        self.contracts += [(re.compile(r'^std::map<nano::ast_node_t const\*, int.*>::(find|end|operator\[\])'), self.c_valmap),
                           (re.compile(r'^nano::\w+::replace_child\('), self.c_replace)]
        self.VT = self.VT + ('eval_t',)
        self.allocs = {}

    def int_inv(self, eng, st, r, cls, f, v):
        AstWorld.int_inv(self, eng, st, r, cls, f, v)
        if (cls, f) == (BIN, 'op'): eng.assume(st, z3.Or([v == self.E['TOK_' + t] for t in OPS2]))
        if cls == 'token_t' and f == 'type_' and r.meta.get('role') == 'op': eng.assume(st, z3.Or(v == self.E['TOK_SUB'], v == self.E['TOK_NOT']))

    def make(self, eng, cls):
        st = PassWorld.make(self, eng, cls)
        for c in ('opt_const_expr_t', 'opt_if_remove_t', 'sema_const_t', 'sema_global_var_t'):
            self.links[c, 'ast_'] = lambda e, s, r: self.new(e, s, 'ast', 'ast_t')
        for c in ('opt_const_expr_t', 'opt_post_ret_t', 'opt_if_remove_t', 'sema_const_t', 'sema_global_var_t', 'eval_t', 'sema_decl_annotate_t', 'sema_multi_decls_t', 'sema_num_args_t'):
            self.links[c, 'errs_'] = lambda e, s, r: self.new(e, s, 'errors', 'error_manager_t')
        if cls == BIN:
            # the constructor of the node takes the operator from its token
            op = eng.load(st, RP('n', 0, self.off(BIN, 'op')), INT(32))
            tok = eng.load(st, RP('n', 0, self.off(BIN, 'token')), PTR)
            eng.assume(st, eng.load(st, RP(tok.r, 0, self.off('token_t', 'type_')), INT(32)) == op)
        self.log0 = len(st.log)
        return st

    # the value of nodes known to be constant: map<const ast_node_t*, int>
    def key(self, eng, st, p):
        if isinstance(p, MaybeP): p = p.p
        if not isinstance(p, RP): raise Undecided('key %r' % p)
        return self.termof.get(p.r, z3.BitVec('&' + p.r, 64))

    def valreg(self, eng, st):
        if 'vals' not in st.regs:
            r = Reg('vals', 'vals', 'seq')
            r.es, r.n = 4, z3.BitVecVal(-1, 64)
            r.meta = {'nobounds': True}
            r.f[0, 4] = Fun(lambda i: z3.Function('known.value', B64, B32)(bv(i, 64)))
            r.f[0, 'has'] = Fun(lambda i: z3.Function('known', B64, z3.BoolSort())(bv(i, 64)))
            st.regs['vals'] = r
        return st.regs['vals']

    def c_valmap(self, eng, st, a, ins):
        """std::map<const ast_node_t*, int>: find, end, operator[]"""
        m = re.search(r'>::(find|end|operator\[\])', eng.m.dem(self.callee(eng, st, ins)).split('(')[0]).group(1)
        if m == 'end': return NULL
        r = self.valreg(eng, st)
        p = eng.load(st, a[1], PTR)
        k = self.key(eng, st, p)
        if m == 'operator[]':
            eng.prove(st, z3.Not(self.is_cls(st, p.p if isinstance(p, MaybeP) else p, LIT)), 'only operators have a known value')
            w = st.wr('vals')
            w.f[0, 'has'] = w.f[0, 'has'].write(k, z3.BoolVal(True))
            return RP('vals', k)
        self.no_lit(eng, st, p)
        v = r.f[0, 4].read(k)
        nid = 'valnode.%d' % len(st.regs)
        q = Reg(nid, nid, 'cells')
        q.cells[40] = (4, v)
        q.meta = {}
        st.regs[nid] = q
        return MaybeP(r.f[0, 'has'].read(k), RP(nid))

    def c_replace(self, eng, st, a, ins):
        """parent->replace_child(which, with), proved by the replace[...] tasks"""
        st.log.append(('replace', a[0], a[1], a[2]))
        return None

    def no_lit(self, eng, st, p):
        """invariant of the table: no literal is in it"""
        p = p.p if isinstance(p, MaybeP) else p
        eng.assume(st, z3.Implies(z3.Function('known', B64, z3.BoolSort())(self.key(eng, st, p)), z3.Not(self.is_cls(st, p, LIT))))

    # a node is a constant: an integer literal, or known
    def const(self, eng, st, p):
        p = p.p if isinstance(p, MaybeP) else p
        self.no_lit(eng, st, p)
        k = self.key(eng, st, p)
        has, val = z3.Function('known', B64, z3.BoolSort())(k), z3.Function('known.value', B64, B32)(k)
        lit = self.is_cls(st, p, LIT)
        lv = self.sym(p.r, 'val', 32)
        return z3.Or(lit, has), z3.If(lit, lv, val)

    def fields(self, cls):
        return [f for (c, f) in self.t.offs if c == cls]

    def same_fields(self, eng, s, cls, but, name):
        """members of n other than `but` are as before"""
        for (c, f), off in self.t.offs.items():
            if c != cls or f in but: continue
            o, n = self.st0.regs['n'].cells.get(off), s.regs['n'].cells.get(off)
            if n is None: continue
            d = s.regs['n'].meta['det'].get(off) if o is None else o
            if o is None and d is None: continue
            a, b = d[1], n[1]
            if isinstance(a, Ptr) or isinstance(b, Ptr): ok = eng.ptr_eq(s, a, b)
            elif z3.is_fp(a): ok = a.eq(b)
            else: ok = bv(a, 8 * d[0]) == bv(b, 8 * d[0])
            eng.prove(s, ok, '%s: %s is left alone' % (name, f))

    def new_lit(self, eng, s, p, cls=LIT):
        """p is a node of that class made by this function"""
        p = p.p if isinstance(p, MaybeP) and must(eng, p.c) else p
        if not isinstance(p, RP) or p.r in self.st0.regs or p.r.startswith('elt:') or s.regs[p.r].lazy is not None: return None
        ty = s.regs[p.r].cells.get(self.off('ast_node_t', 'type'))
        if ty is None or not must(eng, bv(ty[1], 32) == self.E[TYPE_OF[cls]]): return None
        return p


def run_visit(T, setup, visitor, cls, post, pre=None, fn=None, args=None, world=OptWorld):
    w = world(T, visitor)
    eng = setup(w.engine())
    st = w.make(eng, cls)
    if pre: pre(w, eng, st)
    w.st0 = st.fork()
    eng.canary = False

    def end(s, k, v):
        if k not in ('ret', 'throw'): return
        if not eng.canary and eng.check() == z3.sat: eng.canary = True
        post(w, eng, s, k, v)
    eng.on_end = end
    eng.start(st, find1(T, fn or r'^nano::%s::visit\(nano::%s\*\)' % (visitor, cls)), args(w) if args else [w.V, w.n])
    eng.explore(st)
    return eng


def short(cls): return re.sub('^ast_(exp_|stmt_)?|_t$', '', cls)


def ld(w, eng, st, p, cls, f, ty=PTR): return eng.load(st, RP(p.r, 0, w.off(cls, f)), ty)


def errors(s): return [x for x in s.log if x[0] == 'error']


# ------------------------------------------------------------ opt_const_expr
def known_after(w, eng, s, key, const, val, name):
    """the table of known values changes at most at key, to the right value"""
    r = w.valreg(eng, s)
    k = z3.BitVec('any.node', 64)
    h0, v0 = z3.Function('known', B64, z3.BoolSort()), z3.Function('known.value', B64, B32)
    eng.prove(s, z3.Implies(k != key, r.f[0, 'has'].read(k) == h0(k)), name + ': other nodes stay as known as they were')
    eng.prove(s, z3.Implies(z3.And(k != key, h0(k)), r.f[0, 4].read(k) == v0(k)), name + ': values of other nodes are kept')
    now = z3.simplify(r.f[0, 'has'].read(key))
    eng.prove(s, z3.Implies(z3.And(now, z3.Not(h0(key))), const), name + ': only a constant becomes known')
    eng.prove(s, z3.Implies(z3.And(now, const), z3.Or(r.f[0, 4].read(key) == val, z3.And(h0(key), r.f[0, 4].read(key) == v0(key)))), name + ': its value is what the machine would compute')


def t_fold(cls):
    def post(w, eng, s, k, v):
        nm = short(cls)
        n = w.n
        if cls == BIN:
            cl, a = w.const(eng, s, ld(w, eng, s, n, BIN, 'left'))
            cr, b = w.const(eng, s, ld(w, eng, s, n, BIN, 'right'))
            op = ld(w, eng, s, n, BIN, 'op', INT(32))
            const, val = z3.And(cl, cr), sem2(w.E, op, a, b)
            dz = z3.And(const, divzero(w.E, op, b))
        else:
            const, a = w.const(eng, s, ld(w, eng, s, n, UN, 'child'))
            tok = ld(w, eng, s, n, UN, 'op')
            val = sem1(w.E, ld(w, eng, s, tok, 'token_t', 'type_', INT(32)), a)
            dz = z3.BoolVal(False)
        if k == 'throw':
            eng.prove(s, dz, nm + ': reports an error only for a constant division by zero')
            return
        eng.prove(s, z3.Not(dz), nm + ': a constant division by zero is reported')
        visited_once(w, eng, s, cls, s.log, nm)
        known_after(w, eng, s, z3.BitVec('&n', 64), const, val, nm)
        w.same_fields(eng, s, cls, (), nm)
    return Task('fold:' + short(cls), lambda T, setup: run_visit(T, setup, 'opt_const_expr_t', cls, post), info={'native': ('fold',)})


FOLDS = ('ast_stmt_if_t', 'ast_stmt_while_t', 'ast_stmt_return_t', 'ast_stmt_assign_var_t')


def t_foldstmt(cls):
    nm = short(cls)

    def post(w, eng, s, k, v):
        e0 = ld(w, eng, w.st0.fork(), w.n, cls, 'expr')
        p0 = e0.p if isinstance(e0, MaybeP) else e0
        isbin = w.is_cls(s, p0, BIN)
        if isinstance(e0, MaybeP): isbin = z3.And(e0.c, isbin)
        if k == 'throw':
            eng.prove(s, isbin, nm + ': reports an error only for an operator')
            if must(eng, isbin):
                cl, a = w.const(eng, s, ld(w, eng, s, p0, BIN, 'left'))
                cr, b = w.const(eng, s, ld(w, eng, s, p0, BIN, 'right'))
                eng.prove(s, z3.And(cl, cr, divzero(w.E, ld(w, eng, s, p0, BIN, 'op', INT(32)), b)), nm + ': reports an error only for a constant division by zero')
            return
        visited_once0(w, eng, s, cls, nm)
        now = s.regs['n'].cells[w.off(cls, 'expr')][1]
        w.same_fields(eng, s, cls, ('expr',), nm)
        lit = w.new_lit(eng, s, now)
        if lit is None:
            eng.prove(s, eng.ptr_eq(s, e0, now), nm + ': the expression is kept or becomes a literal')
            return
        eng.prove(s, isbin, nm + ': only an operator is replaced by a literal')
        if not must(eng, isbin): return
        cl, a = w.const(eng, s, ld(w, eng, s, p0, BIN, 'left'))
        cr, b = w.const(eng, s, ld(w, eng, s, p0, BIN, 'right'))
        op = ld(w, eng, s, p0, BIN, 'op', INT(32))
        eng.prove(s, z3.And(cl, cr), nm + ': only a constant expression is replaced')
        eng.prove(s, bv(ld(w, eng, s, lit, LIT, 'val', INT(32)), 32) == sem2(w.E, op, a, b), nm + ': the literal is what the machine would compute')
        t0, t1 = ld(w, eng, s, p0, BIN, 'token'), ld(w, eng, s, lit, LIT, 'token')
        eng.prove(s, eng.ptr_eq(s, t0, t1), nm + ': the literal keeps the source line')

    class W(OptWorld):
        def after_child(self, eng, s, q):
            # visiting children may replace nothing above them; the table of known values grows truthfully (fold tasks)
            pass
    return Task('fold:' + nm, lambda T, setup: run_visit(T, setup, 'opt_const_expr_t', cls, post, world=W), info={'native': ('fold',)})


# ------------------------------------------------------------ opt_if_remove
def t_ifremove(cls):
    nm = 'dead ' + short(cls)

    def post(w, eng, s, k, v):
        if k == 'throw': return eng.prove(s, False, nm + ': does not throw')
        st0 = w.st0.fork()
        g0 = lambda f: ld(w, eng, st0, w.n, cls, f)
        g1 = lambda f: ld(w, eng, s, w.n, cls, f)
        visited_once0(w, eng, s, cls, nm)
        e0, e1 = g0('expr'), g1('expr')
        islit = w.is_cls(s, e0, LIT)
        lit = w.new_lit(eng, s, e1)
        val0 = w.sym(e0.r, 'val', 32)
        # the value tested after the pass: unknown but unchanged unless literal
        if lit is not None: t1 = bv(ld(w, eng, s, lit, LIT, 'val', INT(32)), 32) != 0
        elif must(eng, eng.ptr_eq(s, e0, e1)): t1 = bv(ld(w, eng, s, e0, LIT, 'val', INT(32)), 32) != 0 if must(eng, islit) else None
        else: return eng.prove(s, False, nm + ': the condition is kept or becomes a literal')
        if lit is not None: eng.prove(s, islit, nm + ': only a literal condition is replaced')
        if t1 is None:
            for f in KIDS[cls]: eng.prove(s, eng.ptr_eq(s, g0(f), g1(f)), nm + ': nothing is removed unless the condition is a literal')
            return
        if lit is None: eng.prove(s, bv(ld(w, eng, s, e0, LIT, 'val', INT(32)), 32) == val0, nm + ': a shared literal is not altered')
        tr = val0 != 0
        if cls == 'ast_stmt_if_t':
            old = {True: g0('then_block'), False: g0('else_block')}
            new = {True: g1('then_block'), False: g1('else_block')}
            for o in (True, False):
                for q in (True, False):
                    eng.prove(s, z3.Implies(z3.And(tr if o else z3.Not(tr), t1 if q else z3.Not(t1)), tobool(eng.ptr_eq(s, old[o], new[q]))), nm + ': the branch taken stays the branch taken')
        else:
            eng.prove(s, tr == t1, nm + ': the loop still runs or not as before')
            eng.prove(s, z3.Implies(tr, tobool(eng.ptr_eq(s, g0('body'), g1('body')))), nm + ': a loop that runs keeps its body')
        if lit is not None:
            eng.prove(s, eng.ptr_eq(s, ld(w, eng, s, e0, LIT, 'token'), ld(w, eng, s, lit, LIT, 'token')), nm + ': the literal keeps the source line')
    return Task('ifremove:' + short(cls), lambda T, setup: run_visit(T, setup, 'opt_if_remove_t', cls, post), info={'native': ('fold',)})


def visited_once0(w, eng, s, cls, nm):
    """children as they were before the pass are visited"""
    cur = s.fork()
    cur.regs = dict(s.regs)
    cur.regs['n'] = w.st0.regs['n']
    visited_once(w, eng, cur, cls, s.log, nm)


# ------------------------------------------------------------ opt_post_ret
class RetLoop:
    """the loop that removes statements after a return: what is kept so far is the beginning of the block"""
    events = False

    def __init__(self, w, seq, o, isret, n0, j): self.w, self.seq, self.o, self.isret, self.n0, self.j = w, seq, o, isret, n0, j

    def havoc(self, eng, st, sh): return {self.seq}

    def havoc2(self, eng, st, sh, hv):
        its = [(l, x) for l, (x, v, w) in hv.items() if isinstance(x, RP) and x.r == self.seq]
        fl = [(l, x) for l, (x, v, w) in hv.items() if w in (1, 8) and not isinstance(x, Ptr) and (v is False or is_c(v) and v == 0)]
        if not its: return
        self.it, self.fl = its[0], fl[0] if fl else None
        r = sh.wr(self.seq)
        eng.nfresh += 1
        u = z3.Function('left!%d' % eng.nfresh, B64, B64)
        found = flag(self.fl[1]) if self.fl else z3.BoolVal(True)
        n = z3.BitVec('left.n!%d' % eng.nfresh, 64)
        r.n = n
        r.f[0, 8] = Fun(lambda i: z3.If(found, u(bv(i, 64)), self.o(i)))
        sh.pc += self.inv(eng, sh, self.it[1].idx, found, self.fl and self.fl[1])

    def inv(self, eng, s, it, found, fl):
        i, n = bv(it, 64), bv(s.regs[self.seq].n, 64)
        rd = lambda x: s.regs[self.seq].f[0, 8].read(x)
        j = self.j
        return [z3.ULE(i, n), z3.ULE(n, self.n0), z3.Implies(z3.ULT(j, i), bv(rd(j), 64) == self.o(j)),
                z3.If(found, z3.And(i != 0, self.isret(i - 1)), n == self.n0),
                z3.BoolVal(True) if not z3.is_bv(fl) else z3.ULE(fl, 1)]

    def settle(self, eng, st, sh, phis, backs, holds):
        from .loops import SummaryFail
        if not hasattr(self, 'it'): return
        k = z3.BitVec('some.k', 64)
        for s1, ph, pc in backs:
            it = self.cur(self.it[0], s1, ph)
            fl = self.cur(self.fl[0], s1, ph) if self.fl else True
            found = flag(fl)
            if not isinstance(it, RP) or it.r != self.seq: raise SummaryFail('iterator leaves the list')
            g = z3.And(self.inv(eng, s1, it.idx, found, fl) + [z3.Implies(z3.Not(found), bv(s1.regs[self.seq].f[0, 8].read(k), 64) == self.o(k))])
            if not holds(pc, g): raise SummaryFail('invariant of the removal loop')
        i0 = [v for l, (x, v, w) in self.hv.items() if l == self.it[0]][0]
        if not is_c(i0.idx) or i0.idx != 0 or not self.fl: raise SummaryFail('loop does not start at the beginning')


def flag(x): return z3.BoolVal(x) if isinstance(x, bool) else x if z3.is_bool(x) else z3.BoolVal(x != 0) if is_c(x) else x != 0


def t_postret():
    def body(T, setup):
        w = OptWorld(T, 'opt_post_ret_t')
        eng = setup(w.engine())
        st = w.make(eng, BLK)
        seq = the_obj(eng, st, RP('n', 0, w.off(BLK, 'nodes')), 'vector', NP).seq
        w.nodes = seq
        w.st0 = st.fork()
        eng.canary = False
        eng.cut_loops = True
        o = lambda i: z3.Function(seq + '.f0_8', B64, B64)(bv(i, 64))
        isret = lambda i: z3.Function('ast.type.32', B64, B32)(o(i)) == w.E[TYPE_OF['ast_stmt_return_t']]
        n0 = bv(st.regs[seq].n, 64)
        j = z3.BitVec('any.j', 64)
        eng.iterms = list(eng.iterms) + [j]

        eng.cut_hook = lambda e, s, key, phis: RetLoop(w, seq, o, isret, n0, j)

        def end(s, k, v):
            if k != 'ret': return eng.prove(s, False, 'post return: does not throw')
            eng.canary = True
            r = s.regs[seq]
            n = bv(r.n, 64)
            rd = bv(eng.seq_field(s, r, 0, 8, PTR).read(j), 64)
            eng.prove(s, z3.ULE(n, n0), 'post return: no statement is added')
            eng.prove(s, z3.Implies(z3.ULT(j, n), rd == o(j)), 'post return: the statements kept are the first ones, in order')
            eng.prove(s, z3.Implies(z3.ULT(n, n0), z3.And(n != 0, isret(n - 1))), 'post return: only statements after a return are removed')
        eng.on_end = end
        eng.start(st, find1(T, r'^nano::opt_post_ret_t::visit\(nano::ast_block_t\*\)'), [w.V, w.n])
        eng.explore(st)
        return eng
    return Task('postret:block', body, info={'native': ('fold', 'flow')})


# ------------------------------------------------------------ eval_t
class EvalWorld(OptWorld):
    """dispatch(child) under the contract of eval_t: a valid evaluation pushed exactly the value of a constant child"""

    def int_inv(self, eng, st, r, cls, f, v):
        OptWorld.int_inv(self, eng, st, r, cls, f, v)
        if f == 'valid_': eng.assume(st, z3.ULE(v, 1))

    def make(self, eng, cls):
        st = OptWorld.make(self, eng, cls)
        self.vals = the_obj(eng, st, RP('this', 0, self.off('eval_t', 'value_')), 'vector', 'int').seq
        self.n0 = bv(st.regs[self.vals].n, 64)
        self.f0 = eng.seq_field(st, st.regs[self.vals], 0, 4, INT(32))
        self.valid0 = bv(eng.load(st, RP('this', 0, self.off('eval_t', 'valid_')), INT(8)), 8) != 0
        return st

    def cc(self, p): return z3.Bool('const:' + p.r)

    def cv(self, p): return z3.BitVec('cvalue:' + p.r, 32)

    def valid(self, eng, s): return bv(eng.load(s, RP('this', 0, self.off('eval_t', 'valid_')), INT(8)), 8) != 0

    def c_dispatch(self, eng, st, a, ins):
        """dispatch(child) of the evaluator: valid afterwards only if it was before and the child is a constant, whose value is pushed"""
        eng.prove(st, isinstance(a[0], RP) and a[0].r == self.V.r, 'dispatches on itself')
        q = a[1].p if isinstance(a[1], MaybeP) else a[1]
        if not isinstance(q, RP): raise Undecided('dispatch of %r' % q)
        was = self.valid(eng, st)
        eng.prove(st, self.is_cls(st, q, BIN, UN, LIT, 'ast_exp_ident_t'), 'evaluates only constant expressions')
        st.log.append(('dispatch', q.r))
        k = len([x for x in st.log if x[0] == 'dispatch'])
        ok = z3.Bool('valid.%d' % k)

        def set_valid(s, v): s.wr('this').cells[self.off('eval_t', 'valid_')] = (1, z3.BitVecVal(v, 8))

        def good(s):
            set_valid(s, 1)
            w = s.wr(self.vals)
            n, f = bv(w.n, 64), w.f[0, 4]
            w.n = simp(n + 1)
            w.f[0, 4] = f.write(simp(n), self.cv(q))

        def bad(s):
            set_valid(s, 0)
            w = s.wr(self.vals)
            n = bv(w.n, 64)
            nn = z3.BitVec('vals.n.%d' % k, 64)
            u = z3.Function('vals.%d' % k, B64, B32)
            w.n = nn
            eng.assume(s, z3.ULE(nn, n + 1))
            w.f[0, 4] = Fun(lambda i: u(bv(i, 64)))
        return [Alt(z3.And(ok, was, self.cc(q)), good), Alt(z3.Not(ok), bad)]


def pushed(w, eng, s, cls, const, val, nm):
    """valid' => valid, the node is a constant and exactly its value was pushed"""
    ok = w.valid(eng, s)
    r = s.regs[w.vals]
    i = z3.BitVec('any.slot', 64)
    eng.prove(s, z3.Implies(ok, z3.And(w.valid0, const)), nm + ': only a constant is evaluated')
    eng.prove(s, z3.Implies(ok, bv(r.n, 64) == w.n0 + 1), nm + ': exactly one value is pushed')
    eng.prove(s, z3.Implies(ok, bv(r.f[0, 4].read(w.n0), 32) == val), nm + ': the value is what the machine would compute')
    eng.prove(s, z3.Implies(z3.And(ok, z3.ULT(i, w.n0)), bv(r.f[0, 4].read(i), 32) == bv(w.f0.read(i), 32)), nm + ': values below are kept')
    w.same_fields(eng, s, cls, (), nm)


def t_eval(cls):
    nm = 'evaluate ' + short(cls)

    def post(w, eng, s, k, v):
        n = w.n
        dz = z3.BoolVal(False)
        if cls == BIN:
            l, r = ld(w, eng, s, n, BIN, 'left'), ld(w, eng, s, n, BIN, 'right')
            tok = ld(w, eng, s, n, BIN, 'token')
            op = ld(w, eng, s, tok, 'token_t', 'type_', INT(32))
            const, val = z3.And(w.cc(l), w.cc(r)), sem2(w.E, op, w.cv(l), w.cv(r))
            dz = z3.And(const, divzero(w.E, op, w.cv(r)))
        elif cls == UN:
            c = ld(w, eng, s, n, UN, 'child')
            tok = ld(w, eng, s, n, UN, 'op')
            const, val = w.cc(c), sem1(w.E, ld(w, eng, s, tok, 'token_t', 'type_', INT(32)), w.cv(c))
        elif cls == LIT: const, val = z3.BoolVal(True), bv(ld(w, eng, s, n, LIT, 'val', INT(32)), 32)
        else:
            d = ld(w, eng, s, n, cls, 'decl')
            isvar = w.is_cls(s, d, VAR)
            const, val = z3.BoolVal(False), z3.BitVecVal(0, 32)
            if must(eng, isvar):
                e = ld(w, eng, s, d, VAR, 'expr')
                p = e.p if isinstance(e, MaybeP) else e
                const = z3.And(bv(ld(w, eng, s, d, VAR, 'is_const', INT(8)), 8) != 0, e.c if isinstance(e, MaybeP) else z3.BoolVal(True), w.is_cls(s, p, LIT))
                val = w.sym(p.r, 'val', 32)
        if k == 'throw': return eng.prove(s, dz, nm + ': reports an error only for a constant division by zero')
        if cls == BIN: eng.prove(s, z3.Implies(w.valid(eng, s), z3.Not(dz)), nm + ': a constant division by zero is reported')
        pushed(w, eng, s, cls, const, val, nm)

    def body(T, setup):
        return run_visit(T, setup, 'eval_t', cls, post, world=EvalWorld)
    return Task('eval:' + short(cls), body, info={'native': ('fold',)})


def t_evaltop():
    nm = 'evaluate'

    def pre(w, eng, st):
        st.regs[w.vals].n = z3.BitVecVal(0, 64)
        w.n0 = z3.BitVecVal(0, 64)
        r = Reg('result', 'result', 'cells')
        r.cells[0] = (4, z3.BitVec('result0', 32))
        r.meta = {}
        st.regs['result'] = r
        eng.assume(st, w.is_cls(st, w.n, BIN, UN, LIT, 'ast_exp_ident_t'))

    def post(w, eng, s, k, v):
        if k == 'throw': return eng.prove(s, False, nm + ': does not throw by itself')
        r = tobool(v)
        r = z3.BoolVal(r) if isinstance(r, bool) else r
        eng.prove(s, z3.Implies(r, w.cc(w.n)), nm + ': succeeds only for a constant expression')
        eng.prove(s, z3.Implies(r, bv(s.regs['result'].cells[0][1], 32) == w.cv(w.n)), nm + ': yields the value of the expression')
        eng.prove(s, len([x for x in s.log if x[0] == 'dispatch']) == 1, nm + ': evaluates once')

    def body(T, setup):
        return run_visit(T, setup, 'eval_t', EXPR, post, pre=pre, world=EvalWorld, fn=r'^nano::eval_t::eval\(', args=lambda w: [w.V, w.n, RP('result')])
    return Task('eval:top', body, info={'native': ('fold',)})


# ------------------------------------------------------------ sema_global_var_t
class GlobWorld(OptWorld):
    def __init__(self, T, visitor='sema_global_var_t'):
        OptWorld.__init__(self, T, visitor)
        self.contracts = [(re.compile(r'^nano::eval_t::eval\('), self.c_eval)] + self.contracts

    def c_eval(self, eng, st, a, ins):
        """eval_t::eval(node, result): true only for a constant expression, with its value (eval tasks); may report a division by zero"""
        p = a[1].p if isinstance(a[1], MaybeP) else a[1]
        st.log.append(('eval', p.r))
        c, v = z3.Bool('const:' + p.r), z3.BitVec('cvalue:' + p.r, 32)
        ok, dz = z3.Bool('evaluates'), z3.Bool('divzero')

        def good(s):
            eng.store(s, a[2], INT(32), v)
            return True
        return [Alt(z3.And(z3.Not(dz), ok, c), good), Alt(z3.And(z3.Not(dz), z3.Not(ok)), lambda s: False), Alt(z3.And(dz, c), lambda s: Throw(ERR_TI, 'constant_divie_by_zero'))]

    def loop_body(self, eng, s, loop, ev, k):
        d = [x for x in ev if x[0] == 'dispatch']
        ch = the_obj(eng, s, RP('n', 0, self.off('ast_program_t', 'children')), 'vector', NP).seq
        el = self.elem(eng, s, ch, bv(k, 64))
        isvar = self.is_cls(s, el, VAR)
        if not d: eng.prove(s, z3.Or(z3.Not(isvar), self.sym(el.r, 'ptr.expr', 64) == 0), 'every global with an initialiser is evaluated')
        else:
            eng.prove(s, z3.And(len(d) == 1, isvar), 'only globals are evaluated, once')
            e2 = s.regs[d[0][1]].meta.get('elem')
            eng.prove(s, e2 is not None and bv(e2[1], 64) == bv(k, 64), 'globals are evaluated in order')
        self.loopvec[loop.k] = ch


def t_global():
    nm = 'global'

    def pre(w, eng, st):
        e = ld(w, eng, st, w.n, VAR, 'expr')
        eng.assume(st, e.c)

    def post(w, eng, s, k, v):
        e0 = ld(w, eng, w.st0.fork(), w.n, VAR, 'expr').p
        if k == 'throw': return eng.prove(s, z3.And(z3.Bool('divzero'), z3.Bool('const:' + e0.r)), nm + ': reports only a constant division by zero')
        now = s.regs['n'].cells[w.off(VAR, 'expr')][1]
        w.same_fields(eng, s, VAR, ('expr',), nm)
        lit = w.new_lit(eng, s, now)
        if lit is not None:
            eng.prove(s, z3.Bool('const:' + e0.r), nm + ': only a constant expression is replaced')
            eng.prove(s, bv(ld(w, eng, s, lit, LIT, 'val', INT(32)), 32) == z3.BitVec('cvalue:' + e0.r, 32), nm + ': the literal is the value of the expression')
            t1 = ld(w, eng, s, lit, LIT, 'token')
            eng.prove(s, eng.ptr_eq(s, ld(w, eng, s, w.n, VAR, 'name'), t1), nm + ': the literal keeps the line of the declaration')
        elif isinstance(now, Null) or isinstance(now, MaybeP) and not eng.feasible(now.c):
            eng.prove(s, w.is_cls(s, e0, 'ast_exp_none_t'), nm + ': an initialiser is dropped only when it is none')
        else: eng.prove(s, eng.ptr_eq(s, e0, now), nm + ': the initialiser is kept otherwise')
    return Task('global:decl', lambda T, setup: run_visit(T, setup, 'sema_global_var_t', VAR, post, pre=pre, world=GlobWorld), info={'native': ('fold',)})


def t_globals():
    def post(w, eng, s, k, v):
        if k == 'throw': return eng.prove(s, False, 'globals: does not throw by itself')
        for x in s.log:
            if x[0] == 'loop':
                ch = w.loopvec.get(x[1])
                kk = bv(s.regs[x[1]].cells[0][1], 64)
                if ch: eng.prove(s, kk == bv(s.regs[ch].n, 64), 'globals: every global is looked at')
                else: eng.prove(s, kk == 0, 'globals: nothing else is looked at')
            else: eng.prove(s, False, 'globals: evaluates outside of the list')
    return Task('global:all', lambda T, setup: run_visit(T, setup, 'sema_global_var_t', 'ast_program_t', post, world=GlobWorld, fn=r'^nano::sema_global_var_t::run_globals_\(', args=lambda w: [w.V, w.n]), info={'native': ('fold',)})


# ------------------------------------------------------------ sema_const_t
LITS = (LIT, 'ast_exp_lit_str_t', 'ast_exp_lit_float_t', 'ast_exp_none_t')
IDENT = 'ast_exp_ident_t'


def t_const():
    nm = 'constant'

    def pre(w, eng, st): eng.assume(st, z3.UGE(w.vs0, 2))   # an identifier has a parent

    def post(w, eng, s, k, v):
        d = ld(w, eng, s, w.n, IDENT, 'decl')
        isc, e, p = z3.BoolVal(False), None, None
        if not must(eng, z3.Not(w.is_cls(s, d, VAR))):
            eng.prove(s, w.is_cls(s, d, VAR), nm + ': kind of declaration is settled')
            if not must(eng, w.is_cls(s, d, VAR)): return
            e = ld(w, eng, s, d, VAR, 'expr')
            p = e.p
            isc = z3.And(bv(ld(w, eng, s, d, VAR, 'is_const', INT(8)), 8) != 0, e.c)
        islit = z3.BoolVal(False) if p is None else w.is_cls(s, p, *LITS)
        w.same_fields(eng, s, IDENT, (), nm)
        if k == 'throw':
            eng.prove(s, z3.And(isc, z3.Not(islit)), nm + ': an error only for a constant that is not a literal')
            return
        eng.prove(s, z3.Implies(isc, islit), nm + ': a constant that is not a literal is reported')
        rep = [x for x in s.log if x[0] == 'replace']
        if not rep: return eng.prove(s, z3.Not(isc), nm + ': every use is replaced by the literal')
        eng.prove(s, z3.And(isc, len(rep) == 1), nm + ': only a constant is replaced, once')
        if not must(eng, isc): return
        _, par, which, with_ = rep[0]
        idx = s.regs[par.r].meta.get('stackidx') if isinstance(par, RP) else None
        eng.prove(s, idx is not None and bv(idx, 64) == w.vs0 - 2, nm + ': replaced in its parent')
        eng.prove(s, isinstance(which, RP) and which.r == 'n', nm + ': the use itself is replaced')
        for c in LITS:
            new = w.new_lit(eng, s, with_, c)
            if new is None: continue
            eng.prove(s, w.is_cls(s, p, c), nm + ': by a literal of the same kind')
            if not must(eng, w.is_cls(s, p, c)): return
            eng.prove(s, eng.ptr_eq(s, ld(w, eng, s, new, c, 'token'), ld(w, eng, s, w.n, IDENT, 'name')), nm + ': the copy is on the line of the use')
            if c == LIT: eng.prove(s, bv(ld(w, eng, s, new, c, 'val', INT(32)), 32) == w.sym(p.r, 'val', 32), nm + ': with the same integer')
            elif c == 'ast_exp_lit_float_t':
                a, b = s.regs[new.r].cells[w.off(c, 'val')][1], w.sym(p.r, 'val', 32)
                eng.prove(s, z3.simplify(a).eq(z3.simplify(z3.fpBVToFP(b, F32))) if z3.is_fp(a) else a == b, nm + ': with the same float')
            elif c == 'ast_exp_lit_str_t':
                o = w.off(c, 'value')
                a, b = get_sv(eng, s, RP(new.r, 0, o)), get_sv(eng, s, RP(p.r, 0, o))
                eng.prove(s, str_eq(eng, s, a, b), nm + ': with the same text')
            return
        eng.prove(s, False, nm + ': replaced by a new literal')

    class W(OptWorld):
        def stack_elem(self, eng, st, v, p):
            return self.new(eng, st, 'anc:' + z3.simplify(v).sexpr().replace('\n', ''), NODES, term=v, role='ancestor', stackidx=p.idx)
    return Task('const:use', lambda T, setup: run_visit(T, setup, 'sema_const_t', IDENT, post, pre=pre, world=W), info={'native': ('fold',)})


def t_constuse(cls):
    """assigning to a constant, a constant without a value, and members of a constant are errors"""
    nm = 'constant ' + short(cls)

    def post(w, eng, s, k, v):
        if cls == VAR:
            e = ld(w, eng, s, w.n, VAR, 'expr')
            bad = z3.And(bv(ld(w, eng, s, w.n, VAR, 'is_const', INT(8)), 8) != 0, z3.Not(e.c))
        else:
            d = ld(w, eng, s, w.n, cls, 'decl')
            bad = bv(ld(w, eng, s, d, VAR, 'is_const', INT(8)), 8) != 0
        if k == 'throw':
            eng.prove(s, bad, nm + ': an error only for misuse of a constant')
            er = errors(s)
            eng.prove(s, len(er) == 1 and eng.ptr_eq(s, er[0][2], ld(w, eng, s, w.n, cls, 'name')), nm + ': reported at the name')
            return
        eng.prove(s, z3.Not(bad), nm + ': misuse of a constant is reported')
        visited_once(w, eng, s, cls, s.log, nm)
        w.same_fields(eng, s, cls, (), nm)
    return Task('const:' + short(cls), lambda T, setup: run_visit(T, setup, 'sema_const_t', cls, post), info={'native': ('names',)})


CONSTUSE = ('ast_stmt_assign_var_t', 'ast_stmt_assign_array_t', 'ast_stmt_assign_member_t', 'ast_stmt_for_t', 'ast_exp_member_t', VAR)


# ------------------------------------------------------------ replace_child
REPL = {'ast_exp_array_init_t': ['*expr'], 'ast_exp_deref_t': ['lhs', 'index'], 'ast_exp_call_t': ['callee', '*args'], BIN: ['left', 'right'], UN: ['child'],
        'ast_stmt_if_t': ['expr'], 'ast_stmt_while_t': ['expr'], 'ast_stmt_for_t': ['start', 'end'], 'ast_stmt_return_t': ['expr'],
        'ast_stmt_assign_var_t': ['expr'], 'ast_stmt_assign_array_t': ['index', 'expr'], 'ast_stmt_assign_member_t': ['expr'], VAR: ['expr']}


class ReplLoop:
    """a loop that replaces elements of a list: done up to the counter"""
    events = False

    def __init__(self, w, seq, which): self.w, self.seq, self.which = w, seq, which

    def havoc(self, eng, st, sh): return {self.seq}

    def rep(self, x): return z3.If(self.w.o(x) == self.w.key(None, None, self.which), self.w.wt, self.w.o(x))

    def at(self, i): return lambda x: z3.If(z3.ULT(bv(x, 64), i), self.rep(x), self.w.o(x))

    def ctr(self, x, w):
        if isinstance(x, RP): return bv(x.idx, 64)
        return z3.SignExt(64 - w, bv(x, w)) if w < 64 else bv(x, 64)

    def havoc2(self, eng, st, sh, hv):
        c = [(l, x, w) for l, (x, v, w) in hv.items() if (isinstance(x, RP) and x.r == self.seq or not isinstance(x, Ptr) and w in (32, 64)) and
             (is_c(v) and v == 0 or isinstance(v, RP) and is_c(v.idx) and v.idx == 0)]
        if not c: return
        self.c = c[0]
        i = self.ctr(c[0][1], c[0][2])
        sh.wr(self.seq).f[0, 8] = Fun(self.at(i))
        sh.pc += [z3.ULE(i, 1 << 30)]

    def settle(self, eng, st, sh, phis, backs, holds):
        from .loops import SummaryFail
        if not hasattr(self, 'c'): return
        k = z3.BitVec('some.k', 64)
        for s1, ph, pc in backs:
            i = self.ctr(self.cur(self.c[0], s1, ph), self.c[2])
            if not holds(pc + [z3.ULT(k, 1 << 40)], z3.And(z3.ULE(i, 1 << 30), bv(s1.regs[self.seq].f[0, 8].read(k), 64) == self.at(i)(k), bv(s1.regs[self.seq].n, 64) == bv(sh.regs[self.seq].n, 64))): raise SummaryFail('invariant of the replacement loop')


def t_replace(cls, f):
    nm = 'replace %s in %s' % (f.strip('*'), short(cls))

    def body(T, setup):
        w = OptWorld(T, 'ast_visitor_t')
        w.contracts = []
        eng = setup(w.engine())
        st = w.make(eng, cls)
        w.new(eng, st, 'with', EXPR)
        W = RP('with')
        w.wt = w.unwrap(eng, st, W)
        lists = {}
        for g in KIDS[cls]:
            if g[0] == '*': lists[g[1:]] = the_obj(eng, st, RP('n', 0, w.off(cls, g[1:])), 'vector', VT_OF.get((cls, g[1:]), NP)).seq
            else: ld(w, eng, st, w.n, cls, g)
        k = z3.BitVec('which.k', 64)
        if f[0] == '*':
            seq = lists[f[1:]]
            eng.assume(st, z3.ULT(k, bv(st.regs[seq].n, 64)))
            which = w.elem(eng, st, seq, k)
        else:
            seq = None
            which = ld(w, eng, st, w.n, cls, f)
            if isinstance(which, MaybeP):
                eng.assume(st, which.c)
                which = which.p
        # the other lists hold other nodes (it is a tree)
        for l, q in lists.items():
            w.o = lambda i, q=q: z3.Function(q + '.f0_8', B64, B64)(bv(i, 64))
        if lists and seq is None:
            w.termof[which.r] = z3.BitVec('&' + which.r, 64)
            st.regs[which.r].meta['term'] = w.termof[which.r]
            i = z3.BitVec('i', 64)
            eng.assume(st, z3.ForAll([i], w.o(i) != w.termof[which.r]))
        w.st0 = st.fork()
        eng.canary = False
        eng.cut_loops = True
        eng.cut_hook = lambda e, s, key, phis: ReplLoop(w, list(lists.values())[0], which) if lists else None

        def end(s, kk, v):
            if kk != 'ret': return eng.prove(s, False, nm + ': does not throw')
            eng.canary = True
            w.same_fields(eng, s, cls, (f,), nm)
            if seq is None:
                now = s.regs['n'].cells[w.off(cls, f)][1]
                eng.prove(s, eng.ptr_eq(s, now, W), nm + ': the child is replaced')
            for l, q in lists.items():
                j = z3.BitVec('any.j', 64)
                r = s.regs[q]
                rd = lambda x: bv(eng.seq_field(s, r, 0, 8, PTR).read(x), 64)
                n = bv(r.n, 64)
                eng.prove(s, n == bv(w.st0.regs[q].n, 64), nm + ': the list keeps its length')
                if q == seq:
                    eng.prove(s, rd(k) == w.wt, nm + ': the element is replaced')
                    eng.prove(s, z3.Implies(z3.And(z3.ULT(j, n), w.o(j) != w.o(k)), rd(j) == w.o(j)), nm + ': other elements are kept')
                else: eng.prove(s, z3.Implies(z3.ULT(j, n), rd(j) == w.o(j)), nm + ': other elements are kept')
        eng.on_end = end
        eng.start(st, find1(T, r'^nano::%s::replace_child\(' % cls), [w.n, which, W])
        eng.explore(st)
        return eng
    return Task('replace:%s.%s' % (short(cls), f.strip('*')), body, info={'native': ('fold',)})


def opt_tasks():
    return ([t_fold(BIN), t_fold(UN)] + [t_foldstmt(c) for c in FOLDS] + [t_ifremove('ast_stmt_if_t'), t_ifremove('ast_stmt_while_t'), t_postret()] +
            [t_eval(c) for c in (BIN, UN, LIT, IDENT)] + [t_evaltop(), t_global(), t_globals(), t_const()] + [t_constuse(c) for c in CONSTUSE] +
            [t_replace(c, f) for c in REPL for f in REPL[c]] + walk_tasks(('opt_const_expr_t', 'opt_post_ret_t', 'opt_if_remove_t', 'sema_const_t', 'eval_t', 'sema_global_var_t')))
