"""pre_codegen.cpp: the @init function and the function table made from the tree (C11, C17)."""
import re
import z3
from .sx import *
from .sx import Reg
from .ast import *
from .ast import AstWorld, must, FUN, VAR, BLK
from .vtasks import WLoop, PassWorld, NP, VT_OF, visited_once
from .models import Vec, sv_of_sid, setup_seq, the_obj, get_sv, sv_lit, sid_of, init_sv, STR_T
from .ir import PTR, INT
from .task import Task
from .opttasks import run_visit, ld

INIT, FNS, ASG = 'pregen_init_t', 'pregen_functions_t', 'ast_stmt_assign_var_t'
J = z3.BitVec('any.elem', 64)
NAT = {'native': ('host', 'full')}


class PLoop(WLoop):
    """a loop judged turn by turn: w.turn(engine, state after, state before, turn)"""
    writes = True

    def havoc2(self, eng, st, sh, hv): self.sh = sh

    def facts(self, eng, s): return self.w.facts(eng, s, bv(s.regs[self.k].cells[0][1], 64))

    def cands(self, eng, st, sh, hv, cur):
        n = len(self.facts(eng, st))
        return [('turns', self.facts(eng, st)[i], self.facts(eng, sh)[i], lambda s1, pv, i=i: self.facts(eng, s1)[i]) for i in range(n)]

    def back(self, eng, s, collect):
        k = bv(s.regs[self.k].cells[0][1], 64)
        if not collect: self.w.turn(eng, s, self.sh, k, s.log[self.nlog + 1:])
        s.wr(self.k).cells[0] = (8, simp(k + 1))


class PreWorld(PassWorld):
    def int_inv(self, eng, st, r, cls, f, v):
        PassWorld.int_inv(self, eng, st, r, cls, f, v)
        if (cls, f) == ('token_t', 'type_') and r.meta.get('role') == 'name': 
            eng.assume(st, v == self.E['TOK_IDENT'])   # the parser takes an identifier there (C12), the lexer gives it a text (C13)
            eng.assume(st, bv(get_sv(eng, st, RP(r.id, 0, self.off('token_t', 'str_'))).n, 64) != 0)
        if (cls, f) == (VAR, 'scope') and r.meta.get('role', '').endswith('.args'): eng.assume(st, v == self.E['e_arg'])
        if (cls, f) == (VAR, 'scope') and r.meta.get('role', '').endswith('.children'): eng.assume(st, v == self.E['e_global'])

    def cut_hook(self, eng, st, key, phis): return PLoop(self, eng, st, key)
    def facts(self, eng, s, k): return []

    def child(self, eng, s, seq, k):
        """element k of a list, as the code read it"""
        for rid, r in s.regs.items():
            e = r.meta.get('elem') if r.meta else None
            if e and e[0] == seq and must(eng, bv(e[1], 64) == k): return RP(rid)
        return self.elem(eng, s, seq, k)


def same_ptr(eng, s, a, b, what):
    a, b = [x.p if isinstance(x, MaybeP) else x for x in (a, b)]
    eng.prove(s, isinstance(a, RP) and isinstance(b, RP) and a.r == b.r, what)


def t_init():
    nm = '@init'

    class W(PreWorld):
        def make(self, eng, cls):
            st = PreWorld.make(self, eng, cls)
            self.links[INIT, 'ast_'] = self.links['nano_t', 'ast_']
            return st

        def kids(self, eng, s): return the_obj(eng, s, RP('n', 0, self.off('ast_program_t', 'children')), 'vector', NP).seq

        def fn(self, eng, s):
            p = eng.load(s, RP('this', 0, self.off(INIT, 'init_')), PTR)
            return p.p if isinstance(p, MaybeP) else p

        def nodes(self, eng, s):
            b = eng.load(s, RP(self.fn(eng, s).r, 0, self.off(FUN, 'body')), PTR)
            b = b.p if isinstance(b, MaybeP) else b
            return the_obj(eng, s, RP(b.r, 0, self.off(BLK, 'nodes')), 'vector', NP).seq

        def turn(self, eng, s, sh, k, ev):
            c = self.child(eng, s, self.kids(eng, s), k)
            q = self.nodes(eng, s)
            n1, n0 = bv(s.regs[q].n, 64), bv(sh.regs[q].n, 64)
            isv = self.is_cls(s, c, VAR)
            if not must(eng, isv): return eng.prove(s, z3.And(z3.Not(isv), n1 == n0), nm + ': only globals are initialised')
            x = ld(self, eng, s, c, VAR, 'expr')
            want = z3.And(x.c if isinstance(x, MaybeP) else z3.BoolVal(isinstance(x, RP)), bv(ld(self, eng, s, c, VAR, 'is_const', INT(8)), 8) == 0)
            eng.prove(s, n1 == z3.If(want, n0 + 1, n0), nm + ': one assignment per global with a value, none for constants')
            if must(eng, want):
                a = eng.load(s, RP(q, n0), PTR)
                if not isinstance(a, RP): return eng.prove(s, False, nm + ': the assignment is listed')
                eng.prove(s, bv(eng.load(s, RP(a.r, 0, self.off('ast_node_t', 'type')), INT(32)), 32) == self.E['ast_stmt_assign_var_e'], nm + ': is an assignment')
                same_ptr(eng, s, ld(self, eng, s, a, ASG, 'decl'), c, nm + ': assigns the global itself')
                same_ptr(eng, s, ld(self, eng, s, a, ASG, 'expr'), x, nm + ': of its declared value')
                same_ptr(eng, s, ld(self, eng, s, a, ASG, 'name'), ld(self, eng, s, c, VAR, 'name'), nm + ': reported by its name')

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        q = w.kids(eng, s)
        n, n0 = bv(s.regs[q].n, 64), z3.BitVec(q + '.n', 64)
        eng.prove(s, n == n0 + 1, nm + ': one function is added')
        f = eng.seq_field(s, s.regs[q], 0, 8, PTR).read(J)
        eng.prove(s, z3.Implies(z3.ULT(J, n0), (w.unwrap(eng, s, f) if isinstance(f, Ptr) else f) == z3.Function(q + '.f0_8', B64, B64)(J)), nm + ': other declarations stay')
        p = eng.load(s, RP(q, n0), PTR)
        if not isinstance(p, RP): return eng.prove(s, False, nm + ': is listed')
        eng.prove(s, bv(eng.load(s, RP(p.r, 0, w.off('ast_node_t', 'type')), INT(32)), 32) == w.E['ast_decl_func_e'], nm + ': is a function')
        eng.prove(s, sid_of(eng, s, get_sv(eng, s, RP(p.r, 0, w.off(FUN, 'name')))) == sid_of(eng, s, sv_lit(b'@init')), nm + ': of that name')
        eng.prove(s, z3.And(bv(ld(w, eng, s, p, FUN, 'is_syscall', INT(8)), 8) == 0), nm + ': is a script function')
        eng.prove(s, bv(s.regs[the_obj(eng, s, RP(p.r, 0, w.off(FUN, 'args')), 'vector', VT_OF[FUN, 'args']).seq].n, 64) == 0, nm + ': takes nothing')
        same_ptr(eng, s, p, w.fn(eng, s), nm + ': the function that was filled')
        lp = [x for x in s.log if x[0] == 'loop']
        if lp: eng.prove(s, len(lp) == 1 and bv(s.regs[lp[0][1]].cells[0][1], 64) == n0, nm + ': every global is looked at')
        else: eng.prove(s, n0 == 0, nm + ': every global is looked at')
    return Task('pre:@init', lambda T, setup: run_visit(T, setup, INIT, 'ast_program_t', post, world=W), info=NAT)


class FnWorld(PreWorld):
    """the table under construction: funcs_ as a list of function records, the record being filled is 'fn'"""

    def __init__(self, T, visitor):
        PreWorld.__init__(self, T, visitor)
        V = r'std::vector<nano::function_t, std::allocator<nano::function_t> >::'
        self.contracts = [(re.compile(r'.*std::vector<nano::identifier_t, std::allocator<nano::identifier_t> >::emplace_back<>\('), self.c_id), (re.compile('^' + V + r'emplace_back<>\(|.*' + V + r'emplace_back<>\(\)'), self.c_add), (re.compile('^' + V + r'back\(\)'), self.c_back),
                          (re.compile(r'^nano::program_builder_t::add_syscall\('), self.c_sys), (re.compile(r'^nano::program_builder_t::program_builder_t\('), self.c_builder),
                          (re.compile(r'^nano::program_builder_t::~'), lambda eng, st, a, ins: None)] + self.contracts

    def make(self, eng, cls):
        st = PreWorld.make(self, eng, cls)
        self.links['nano_t', 'program_'] = self.new(eng, st, 'prog', 'program_t')
        self.links[FNS, 'f_'] = lambda e, s, r: self.fptr(e, s)
        self.cls = cls
        return st

    def fptr(self, eng, st):
        """f_: the function being filled, null outside of functions"""
        if self.cls != VAR: return NULL
        return MaybeP(z3.Bool('in.function'), self.record(eng, st, False))

    def record(self, eng, st, fresh):
        if 'fn' not in st.regs:
            self.new(eng, st, 'fn', 'function_t')
            for f in ('locals_', 'args_'):
                q = self.vec(eng, st, 'fn.' + f, 'nano::identifier_t', (None, False))
                if fresh: st.regs[q].n = z3.BitVecVal(0, 64)
                st.regs[q].f[0, 'string'] = Fun(lambda i, q=q: sv_of_sid(z3.Function(q + '.name.sid', B64, B64)(bv(i, 64))))
                st.regs['fn'].objs[self.off('function_t', f)] = Vec(q, 'nano::identifier_t')
            if fresh: st.regs['fn'].objs[self.off('function_t', 'name_')] = sv_of_sid(z3.BitVec('no.name', 64))
        return RP('fn')

    def own(self, eng, st, a): eng.prove(st, isinstance(a[0], RP) and a[0].r == 'this' and a[0].off == self.off(FNS, 'funcs_'), 'its own list of functions')

    def c_add(self, eng, st, a, ins):
        """std::vector<function_t>::emplace_back(): one more record with empty lists"""
        self.own(eng, st, a)
        if 'fn' in st.regs: eng.prove(st, False, 'one record per function')
        self.record(eng, st, True)
        st.log.append(('record',))
        return RP('fn')

    def c_id(self, eng, st, a, ins):
        """std::vector<identifier_t>::emplace_back(): one more entry, no name, slot 0"""
        q = the_obj(eng, st, a[0], 'vector', 'nano::identifier_t').seq
        n = bv(st.regs[q].n, 64)
        r = st.wr(q)
        r.f[0, 'string'] = r.f[0, 'string'].write(n, sv_lit(b''))
        r.n = simp(n + 1)
        eng.store(st, RP(q, n, self.off('identifier_t', 'offset_')), INT(32), 0)
        return RP(q, n)

    def c_back(self, eng, st, a, ins):
        """std::vector<function_t>::back()"""
        self.own(eng, st, a)
        if 'fn' not in st.regs: raise Undecided('back() without a record')
        return RP('fn')

    def c_builder(self, eng, st, a, ins):
        """program_builder_t of the program"""
        eng.prove(st, isinstance(a[1], RP) and a[1].r == 'prog', 'writes to the program that is built')

    def c_sys(self, eng, st, a, ins):
        """program_builder_t::add_syscall (table:add_syscall)"""
        st.log.append(('syscall', sid_of(eng, st, get_sv(eng, st, a[1]))))
        return z3.BitVec('syscall.index', 32)

    def list(self, eng, s, f): return 'fn.' + f
    def nm(self, eng, s, q, i): return sid_of(eng, s, s.regs[q].f[0, 'string'].read(bv(i, 64)))
    def offv(self, eng, s, q, i): return bv(eng.load(s, RP(q, i, self.off('identifier_t', 'offset_')), INT(32)), 32)

    def after_child(self, eng, s, q):
        p = eng.load(s, RP('this', 0, self.off(FNS, 'f_')), PTR)
        p = p.p if isinstance(p, MaybeP) else p
        if self.cls == FUN: eng.prove(s, isinstance(p, RP) and p.r == 'fn', 'locals are added to the function they are in')


def t_fnlocal():
    nm = 'function table: local'

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        inf = z3.Bool('in.function')
        loc = bv(ld(w, eng, s, w.n, VAR, 'scope', INT(32)), 32) == w.E['e_local']
        w.record(eng, s, False)
        q = 'fn.locals_'
        n, n0 = bv(s.regs[q].n, 64), z3.BitVec(q + '.n', 64)
        eng.prove(s, n == z3.If(z3.And(inf, loc), n0 + 1, n0), nm + ': one entry per local variable, none for others')
        eng.prove(s, bv(s.regs['fn.args_'].n, 64) == z3.BitVec('fn.args_.n', 64), nm + ': arguments are left alone')
        if must(eng, z3.And(inf, loc)):
            t = ld(w, eng, s, w.n, VAR, 'name')
            t = t.p if isinstance(t, MaybeP) else t
            eng.prove(s, w.nm(eng, s, q, n0) == sid_of(eng, s, get_sv(eng, s, RP(t.r, 0, w.off('token_t', 'str_')))), nm + ': its name')
            eng.prove(s, w.offv(eng, s, q, n0) == bv(ld(w, eng, s, w.n, VAR, 'offset', INT(32)), 32), nm + ': its slot')
    return Task('pre:local', lambda T, setup: run_visit(T, setup, FNS, VAR, post, world=FnWorld), info=NAT)


def t_fnfun():
    nm = 'function table: function'

    class W(FnWorld):
        def args(self, eng, s): return the_obj(eng, s, RP('n', 0, self.off(FUN, 'args')), 'vector', VT_OF[FUN, 'args']).seq

        def facts(self, eng, s, k): return []

        def turn(self, eng, s, sh, k, ev):
            d = [x for x in ev if x[0] == 'dispatch']
            q = 'fn.args_'
            n1, n0 = bv(s.regs[q].n, 64), bv(sh.regs[q].n, 64)
            if d: return eng.prove(s, n1 == n0, nm + ': visiting adds no arguments')
            c = self.child(eng, s, self.args(eng, s), k)
            c = c.p if isinstance(c, MaybeP) else c
            eng.prove(s, z3.And(n0 == k, n1 == n0 + 1), nm + ': one entry per argument, in order')
            t = ld(self, eng, s, c, VAR, 'name')
            t = t.p if isinstance(t, MaybeP) else t
            eng.prove(s, self.nm(eng, s, q, n0) == sid_of(eng, s, get_sv(eng, s, RP(t.r, 0, self.off('token_t', 'str_')))), nm + ': name of the argument')
            eng.prove(s, self.offv(eng, s, q, n0) == bv(ld(self, eng, s, c, VAR, 'offset', INT(32)), 32), nm + ': slot of the argument')

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        sysc = bv(ld(w, eng, s, w.n, FUN, 'is_syscall', INT(8)), 8) != 0
        me = sid_of(eng, s, get_sv(eng, s, RP('n', 0, w.off(FUN, 'name'))))
        rec, sy = [x for x in s.log if x == ('record',)], [x for x in s.log if x[0] == 'syscall']
        if must(eng, sysc):
            eng.prove(s, not rec, nm + ': a system call is no script function')
            eng.prove(s, len(sy) == 1 and sy[0][1] == me, nm + ': a system call is listed by its name')
            return
        eng.prove(s, z3.Not(sysc), nm + ': kind settled')
        eng.prove(s, len(rec) == 1 and not sy, nm + ': one record')
        if len(rec) != 1: return
        eng.prove(s, sid_of(eng, s, get_sv(eng, s, RP('fn', 0, w.off('function_t', 'name_')))) == me, nm + ': of that name')
        n = bv(s.regs[w.args(eng, s)].n, 64)
        eng.prove(s, bv(s.regs['fn.args_'].n, 64) == n, nm + ': an entry for every argument')
        b = ld(w, eng, s, w.n, FUN, 'body')
        r = (b.p if isinstance(b, MaybeP) else b).r
        c = len([x for x in s.log if x == ('dispatch', r)])
        if c == 0: eng.prove(s, z3.Not(b.c) if isinstance(b, MaybeP) else False, nm + ': its locals are collected')
        else: eng.prove(s, c == 1, nm + ': its locals are collected once')
    return Task('pre:function', lambda T, setup: run_visit(T, setup, FNS, FUN, post, world=W), info=NAT)


def t_fnprogram():
    nm = 'function table: program'

    class W(FnWorld):
        cut_hook = PassWorld.cut_hook

        def __init__(self, T, visitor):
            FnWorld.__init__(self, T, visitor)
            V = r'^(?:.* )?std::vector<nano::function_t, std::allocator<nano::function_t> >::'
            self.contracts = [(re.compile(V + r'(begin|end|cbegin|cend)\('), self.c_iter), (re.compile(V + r'insert<.*\('), self.c_insert)] + self.contracts

        def which(self, eng, st, p):
            if not isinstance(p, RP): raise Undecided('function list %r' % p)
            if p.r == 'this' and p.off == self.off(FNS, 'funcs_'): return 'own'
            if p.r == 'prog' and p.off == self.off('program_t', 'functions_'): return 'table'
            raise Undecided('function list %r' % p)

        def c_iter(self, eng, st, a, ins):
            """std::vector<function_t>: begin, end"""
            q = self.which(eng, st, a[0]) + '.list'
            if q not in st.regs: eng.new_seq(st, q, 8, z3.BitVec(q + '.n', 64)).id
            d = eng.m.dem(self.callee(eng, st, ins))
            rid = [x for x in st.regs if x == q or st.regs[x].name == q][0]
            return RP(rid, 0 if re.search(r'::c?begin\(', d) else st.regs[rid].n)

        def c_insert(self, eng, st, a, ins):
            """std::vector<function_t>::insert(position, first, last)"""
            w = self.which(eng, st, a[0])
            nmof = lambda p: st.regs[p.r].name if isinstance(p, RP) and p.r in st.regs else None
            n = lambda q: z3.BitVec(q + '.n', 64)
            eng.prove(st, w == 'table' and nmof(a[1]) == 'table.list' and bv(a[1].idx, 64) == n('table.list'), nm + ': goes to the end of the table of the program')
            eng.prove(st, nmof(a[2]) == 'own.list' and nmof(a[3]) == 'own.list' and z3.And(bv(a[2].idx, 64) == 0, bv(a[3].idx, 64) == n('own.list')), nm + ': all functions that were collected')
            st.log.append(('insert',))
            return a[1]

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        ins = [i for i, x in enumerate(s.log) if x == ('insert',)]
        eng.prove(s, len(ins) == 1, nm + ': the functions are added once')
        if len(ins) != 1: return
        visited_once(w, eng, s, 'ast_program_t', s.log[:ins[0]], nm)
        eng.prove(s, not any(x[0] in ('dispatch', 'loop') for x in s.log[ins[0]:]), nm + ': every declaration is collected before')
    return Task('pre:program', lambda T, setup: run_visit(T, setup, FNS, 'ast_program_t', post, world=W), info=NAT)


def pre_tasks(): return [t_init(), t_fnlocal(), t_fnfun(), t_fnprogram()]
