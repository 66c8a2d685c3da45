"""Name resolution, duplicate declarations, argument counts and slots (C14)."""
import re
import z3
from .sx import *
from .sx import Reg
from .ast import *
from .ast import AstWorld, must, VAR, FUN, BLK, EXPR, NODES, TYPE_OF, ERR_TI
from .vtasks import walk_tasks, PassWorld, WLoop, KIDS, VT_OF, NP, visited_once
from .models import Vec, setup_seq, the_obj, str_eq, get_sv, sv_of_sid, sid_of
from .opttasks import run_visit, short, ld, errors, OptWorld, CONSTUSE, t_constuse
from .ir import Unsupported, PTR, INT
from .task import Task, standin
from .vmtasks import find1

IDENT = 'ast_exp_ident_t'
ANN, MUL, NUM, OFF = 'sema_decl_annotate_t', 'sema_multi_decls_t', 'sema_num_args_t', 'pregen_offset_t'
SETS = r'std::vector<std::set<'
# blocks that are a scope of their own
FRESH = {'ast_stmt_if_t': ['then_block', 'else_block'], 'ast_stmt_while_t': ['body'], 'ast_stmt_for_t': ['body'], FUN: ['*args', 'body']}
DECLS = {'ast_stmt_if_t': ['then_block', 'else_block'], 'ast_stmt_while_t': ['body'], 'ast_stmt_for_t': ['body'], FUN: ['*args', 'body'], BLK: ['*nodes'], 'ast_program_t': ['*children']}


class SemaWorld(OptWorld):
    """scopes are a ghost stack: push, pop, insert and lookups are events"""
    tree0 = {(c, 'decl'): ((VAR, FUN), False) for c in (IDENT, 'ast_exp_member_t')}

    def __init__(self, T, visitor):
        OptWorld.__init__(self, T, visitor)
        self.contracts = [(re.compile(r'^(?:[^(]* )?std::vector<std::set<.*>::(emplace_back|push_back|pop_back|back|operator\[\]|size|empty|front)\W'), self.c_scopes),
                          (re.compile(r'^std::set<.*>::insert\('), self.c_insert),
                          (re.compile(r'^(?:[^(]* )?std::set<.*>::emplace<'), self.c_insert),
                          (re.compile(r'^nano::sema_decl_annotate_t::find_decl\('), self.c_find),
                          (re.compile(r'^nano::sema_multi_decls_t::is_def_\('), self.c_def),
                          (re.compile(r'^(?:[^(]* )?std::map<std::__cxx11::basic_string<.*nano::ast_decl_func_t const\*.*>::emplace<'), lambda eng, st, a, ins: [RP('this'), 1]),
                          ] + self.contracts
        for k in self.tree0: self.tree[k] = self.tree0[k]
        for c in ('ast_stmt_assign_var_t', 'ast_stmt_assign_array_t', 'ast_stmt_assign_member_t', 'ast_stmt_for_t'): self.tree[c, 'decl'] = (VAR, False)
        self.D0 = z3.BitVec('scopes.depth', 64)

    def make(self, eng, cls):
        st = OptWorld.make(self, eng, cls)
        r = Reg('scopes', 'scopes', 'seq')
        r.es, r.n = 48, z3.BitVecVal(-1, 64)
        r.meta = {'nobounds': True}
        st.regs['scopes'] = r
        st.ghost['lv'] = 0
        eng.assume(st, z3.UGE(self.D0, 1) if cls != 'ast_program_t' else self.D0 == 0)
        eng.bound(st, self.D0, 1 << 20)
        if cls == IDENT:
            # nothing is resolved before this pass
            st.wr('n').cells[self.off(IDENT, 'decl')] = (8, NULL)
        return st

    def c_scopes(self, eng, st, a, ins):
        """the stack of scopes: std::vector<std::set<...>>"""
        m = re.search(r'>::(emplace_back|push_back|pop_back|back|operator\[\]|size|empty|front)\W', re.sub(r'^[^(]*?std::vector<std::set<', '', eng.m.dem(self.callee(eng, st, ins)))).group(1)
        n = simp(self.D0 + st.ghost['lv'])
        if m in ('emplace_back', 'push_back'):
            st.ghost['lv'] += 1
            st.log.append(('push',))
            return RP('scopes', n)
        if m == 'pop_back':
            eng.prove(st, st.ghost['lv'] > 0, 'enclosing scopes are left alone')
            st.ghost['lv'] -= 1
            st.log.append(('pop',))
            return None
        if m == 'size': return n
        if m == 'empty': return simp(n == 0)
        if m == 'back': return RP('scopes', simp(n - 1))
        if m == 'front': return RP('scopes', 0)
        return RP('scopes', a[1])

    def c_insert(self, eng, st, a, ins):
        """std::set::insert into one scope"""
        p = a[0]
        if not isinstance(p, RP) or p.r != 'scopes': raise Undecided('insert into another set')
        if 'basic_string' in eng.m.dem(self.callee(eng, st, ins)).split('>::')[0]: w = get_sv(eng, st, a[1])
        else: w = eng.load(st, a[1], PTR)
        st.log.append(('insert', bv(p.idx, 64), w))
        return [RP('scopes', 0), 1]

    def own_name(self, eng, st):
        cls = st.regs['n'].meta['cls']
        if cls == FUN: return get_sv(eng, st, RP('n', 0, self.off(FUN, 'name')))
        t = ld(self, eng, st, self.n, cls, 'name')
        return get_sv(eng, st, RP(t.r, 0, self.off('token_t', 'str_')))

    def c_find(self, eng, st, a, ins):
        """find_decl(name): the innermost visible declaration of that name, or null (find task)"""
        eng.prove(st, str_eq(eng, st, get_sv(eng, st, a[1]), self.own_name(eng, st)), 'looks up its own name')
        st.log.append(('find',))
        return MaybeP(z3.Bool('visible'), self.new(eng, st, 'found', (VAR, FUN)))

    def c_def(self, eng, st, a, ins):
        """is_def_(name): declared in some enclosing scope (find task)"""
        eng.prove(st, str_eq(eng, st, get_sv(eng, st, a[1]), self.own_name(eng, st)), 'looks up its own name')
        st.log.append(('find',))
        return z3.Bool('visible')

    def after_child(self, eng, s, q): s.log.append(('at', q.r, s.ghost['lv']))

    def loop_havoc(self, eng, st, sh, loop):
        loop.lv = st.ghost['lv']
        return ()

    def loop_body(self, eng, s, loop, ev, k):
        eng.prove(s, s.ghost['lv'] == loop.lv, 'scopes balance in a loop')
        ins = [x for x in ev if x[0] == 'insert']
        if ins:
            eng.prove(s, len(ins) == 1 and len(ev) == 1 and isinstance(ins[0][2], RP) and bv(s.regs[ins[0][2].r].meta['elem'][1], 64) == bv(k, 64), 'every declaration is entered, in order')
            if not isinstance(ins[0][2], RP): return
            eng.prove(s, ins[0][1] == 0, 'into the outermost scope')
            self.loopvec[loop.k] = s.regs[ins[0][2].r].meta['elem'][0]
            self.inserting = getattr(self, 'inserting', set()) | {loop.k}
            return
        d = [x for x in ev if x[0] == 'dispatch']
        if not d and not ev: return
        PassWorld.loop_body(self, eng, s, loop, d, k)

    def scopes(self, eng, s, cls, nm, fresh):
        """the scopes in force whenever a child is visited or a name looked up"""
        kid, vec = {}, {}
        for f in KIDS[cls]:
            if f[0] == '*': vec[the_obj(eng, s, RP('n', 0, self.off(cls, f[1:])), 'vector', VT_OF.get((cls, f[1:]), NP)).seq] = f
            else:
                q = ld(self, eng, self.st0.fork(), self.n, cls, f)
                kid[(q.p if isinstance(q, MaybeP) else q).r] = f
        lv, mine = [], []
        for x in s.log:
            if x[0] == 'push': lv.append([])
            elif x[0] == 'pop':
                if lv: lv.pop()
            elif x[0] == 'insert':
                if must(eng, x[1] == self.D0 + len(lv) - 1) and lv: lv[-1].append('name')
                mine.append((x, len(lv)))
            elif x[0] in ('dispatch', 'loop'):
                f = kid.get(x[1]) if x[0] == 'dispatch' else vec.get(self.loopvec.get(x[1]))
                if x[0] == 'loop' and x[1] in getattr(self, 'inserting', ()): continue
                if f in fresh.get(cls, ()):
                    ok = len(lv) > 0 and all(not l for l in lv[:-1]) and (not lv[-1] or cls == FUN and lv[-1] == ['*args'])
                    eng.prove(s, ok, nm + ': %s is visited in a scope of its own' % f.strip('*'))
                    if lv: lv[-1].append(f)
                else: eng.prove(s, all(not l for l in lv), nm + ': expressions see the enclosing scopes')
            elif x[0] == 'find': eng.prove(s, all(not l for l in lv), nm + ': the name is looked up in the enclosing scopes')
        return mine, lv


def balanced(w, eng, s, nm): eng.prove(s, s.ghost['lv'] == 0, nm + ': scopes opened are closed')


USES = (IDENT, 'ast_exp_member_t', 'ast_stmt_assign_var_t', 'ast_stmt_assign_array_t', 'ast_stmt_assign_member_t', 'ast_stmt_for_t')


def t_use(cls):
    """the node is bound to what its name denotes, or the name is reported"""
    nm = 'name in ' + short(cls)

    def post(w, eng, s, k, v):
        vis = z3.Bool('visible')
        good = vis if cls == IDENT else z3.And(vis, w.is_cls(w_found(w, eng, s), RP('found'), VAR))
        if k == 'throw':
            eng.prove(s, z3.Not(good), nm + ': an error only for an unknown name')
            er = errors(s)
            eng.prove(s, len(er) == 1 and eng.ptr_eq(s, er[0][2], ld(w, eng, s, w.n, cls, 'name')), nm + ': reported at the name')
            return
        eng.prove(s, good, nm + ': an unknown name is reported')
        now = s.regs['n'].cells.get(w.off(cls, 'decl'))
        ok = now is not None and eng.ptr_eq(s, now[1], RP('found'))
        eng.prove(s, ok, nm + ': refers to the declaration found')
        visited_once(w, eng, s, cls, s.log, nm)
        mine, lv = w.scopes(eng, s, cls, nm, FRESH)
        eng.prove(s, not mine, nm + ': declares nothing')
        balanced(w, eng, s, nm)
        w.same_fields(eng, s, cls, ('decl',), nm)
    return Task('use:' + short(cls), lambda T, setup: run_visit(T, setup, ANN, cls, post, world=SemaWorld), info={'native': ('names', 'full')})


def w_found(w, eng, s):
    w.new(eng, s, 'found', (VAR, FUN))
    return s


def t_scope(visitor, cls):
    """blocks get their own scope"""
    nm = '%s: %s' % ('scopes' if visitor == ANN else 'duplicates', short(cls))

    def post(w, eng, s, k, v):
        if k == 'throw': return eng.prove(s, False, nm + ': does not throw')
        if visitor == ANN: visited_once(w, eng, s, cls, [x for x in s.log if x[0] != 'loop' or x[1] not in getattr(w, 'inserting', ())], nm)
        else: decls_once(w, eng, s, cls, nm)
        mine, lv = w.scopes(eng, s, cls, nm, FRESH)
        eng.prove(s, not mine, nm + ': declares nothing itself')
        balanced(w, eng, s, nm)
        w.same_fields(eng, s, cls, (), nm)
    return Task('scope:%s.%s' % (visitor[5:-2], short(cls)), lambda T, setup: run_visit(T, setup, visitor, cls, post, world=SemaWorld), info={'native': ('names', 'full')})


def decls_once(w, eng, s, cls, nm):
    """parts which may declare something are visited once; expressions need not be"""
    log = []
    need = DECLS.get(cls, ())
    names = {}
    for f in KIDS[cls]:
        if f[0] != '*':
            q = ld(w, eng, s, w.n, cls, f)
            names[(q.p if isinstance(q, MaybeP) else q).r] = f
    log = [x for x in s.log if not (x[0] == 'dispatch' and names.get(x[1]) not in need and x[1] in names)]
    old = KIDS[cls]
    KIDS[cls] = [f for f in old if f in need]
    try: visited_once(w, eng, s, cls, log, nm)
    finally: KIDS[cls] = old


def t_declare():
    """sema_decl_annotate_t: a variable is visible after its declaration, in the scope of the declaration"""
    nm = 'declaration'

    def post(w, eng, s, k, v):
        if k == 'throw': return eng.prove(s, False, nm + ': does not throw')
        visited_once(w, eng, s, VAR, s.log, nm)
        ins = [i for i, x in enumerate(s.log) if x[0] == 'insert']
        eng.prove(s, len(ins) == 1, nm + ': entered once')
        for i in ins:
            eng.prove(s, isinstance(s.log[i][2], RP) and s.log[i][2].r == 'n', nm + ': enters itself')
            eng.prove(s, s.log[i][1] == w.D0 - 1, nm + ': into the innermost scope')
            eng.prove(s, not [x for x in s.log[i:] if x[0] == 'dispatch'], nm + ': visible only after its initialiser')
        balanced(w, eng, s, nm)
        w.same_fields(eng, s, VAR, (), nm)
    return Task('scope:declaration', lambda T, setup: run_visit(T, setup, ANN, VAR, post, world=SemaWorld), info={'native': ('names', 'full')})


def t_globalscope():
    nm = 'globals'

    def post(w, eng, s, k, v):
        if k == 'throw': return eng.prove(s, False, nm + ': does not throw')
        loops = [x for x in s.log if x[0] == 'loop']
        insl = [x for x in loops if x[1] in getattr(w, 'inserting', ())]
        eng.prove(s, len(insl) == 1 or must(eng, bv(s.regs[the_obj(eng, s, RP('n', 0, w.off('ast_program_t', 'children')), 'vector', NP).seq].n, 64) == 0), nm + ': every global and function is entered')
        for x in insl:
            q = w.loopvec[x[1]]
            eng.prove(s, bv(s.regs[x[1]].cells[0][1], 64) == bv(s.regs[q].n, 64), nm + ': every global and function is entered')
            eng.prove(s, not [y for y in s.log[:s.log.index(x)] if y[0] == 'loop'], nm + ': before anything is resolved')
        visited_once(w, eng, s, 'ast_program_t', [x for x in s.log if x not in insl], nm)
    return Task('scope:globals', lambda T, setup: run_visit(T, setup, ANN, 'ast_program_t', post, world=SemaWorld), info={'native': ('names', 'full')})


def t_dup(cls):
    """sema_multi_decls_t: a name visible already is reported, otherwise entered"""
    nm = 'duplicate ' + short(cls)

    def post(w, eng, s, k, v):
        vis = z3.Bool('visible')
        if k == 'throw':
            eng.prove(s, vis, nm + ': an error only for a name declared already')
            er = errors(s)
            eng.prove(s, len(er) == 1 and eng.ptr_eq(s, er[0][2], ld(w, eng, s, w.n, cls, 'name' if cls == VAR else 'token')), nm + ': reported at the declaration')
            return
        eng.prove(s, z3.Not(vis), nm + ': a name declared already is reported')
        ins = [i for i, x in enumerate(s.log) if x[0] == 'insert']
        eng.prove(s, len(ins) == 1, nm + ': entered once')
        for i in ins:
            eng.prove(s, str_eq(eng, s, s.log[i][2], w.own_name(eng, s)), nm + ': enters its own name')
            eng.prove(s, s.log[i][1] == w.D0 - 1, nm + ': into the innermost scope')
            eng.prove(s, not [x for x in s.log[:i] if x[0] in ('dispatch', 'loop', 'push')], nm + ': before its parts')
        decls_once(w, eng, s, cls, nm)
        w.scopes(eng, s, cls, nm, FRESH)
        balanced(w, eng, s, nm)
        w.same_fields(eng, s, cls, (), nm)
    return Task('dup:' + short(cls), lambda T, setup: run_visit(T, setup, MUL, cls, post, world=SemaWorld), info={'native': ('names', 'full')})


def t_dupprog():
    nm = 'duplicates: program'

    def post(w, eng, s, k, v):
        if k == 'throw': return eng.prove(s, False, nm + ': does not throw')
        visited_once(w, eng, s, 'ast_program_t', s.log, nm)
        at = [i for i, x in enumerate(s.log) if x[0] == 'push']
        lp = [i for i, x in enumerate(s.log) if x[0] == 'loop']
        eng.prove(s, not lp or len(at) == 1 and at[0] < lp[0], nm + ': declarations go to one outermost scope')
    return Task('dup:program', lambda T, setup: run_visit(T, setup, MUL, 'ast_program_t', post, world=SemaWorld), info={'native': ('names', 'full')})


def t_numargs():
    nm = 'argument count'
    CALL = 'ast_exp_call_t'

    def post(w, eng, s, k, v):
        c = ld(w, eng, s, w.n, CALL, 'callee')
        n = bv(s.regs[the_obj(eng, s, RP('n', 0, w.off(CALL, 'args')), 'vector', NP).seq].n, 64)
        bad = z3.BoolVal(False)
        if not must(eng, z3.Not(w.is_cls(s, c, IDENT))):
            if not must(eng, w.is_cls(s, c, IDENT)): return eng.prove(s, False, nm + ': kind of callee is settled')
            d = ld(w, eng, s, c, IDENT, 'decl')
            if not must(eng, z3.Not(w.is_cls(s, d, FUN))):
                if not must(eng, w.is_cls(s, d, FUN)): return eng.prove(s, False, nm + ': kind of declaration is settled')
                m = bv(s.regs[the_obj(eng, s, RP(d.r, 0, w.off(FUN, 'args')), 'vector', VT_OF[FUN, 'args']).seq].n, 64)
                va = z3.And(bv(ld(w, eng, s, d, FUN, 'is_syscall', INT(8)), 8) != 0, bv(ld(w, eng, s, d, FUN, 'is_varargs', INT(8)), 8) != 0)
                bad = z3.And(z3.Not(va), n != m)
                tok = ld(w, eng, s, c, IDENT, 'name')
        if k == 'throw':
            eng.prove(s, bad, nm + ': an error only for a wrong number of arguments')
            er = errors(s)
            if not z3.is_false(bad): eng.prove(s, len(er) == 1 and eng.ptr_eq(s, er[0][2], tok), nm + ': reported at the name')
            return
        eng.prove(s, z3.Not(bad), nm + ': a wrong number of arguments is reported')
        visited_once(w, eng, s, CALL, s.log, nm)

    class W(SemaWorld):
        def __init__(self, T, v):
            SemaWorld.__init__(self, T, v)
            self.tree[IDENT, 'decl'] = ((VAR, FUN), True)
    return Task('numargs:call', lambda T, setup: run_visit(T, setup, NUM, CALL, post, world=W), info={'native': ('names', 'full')})


def t_numprog():
    def post(w, eng, s, k, v):
        if k == 'throw': return eng.prove(s, False, 'argument counts: does not throw')
        visited_once(w, eng, s, 'ast_program_t', [x for x in s.log if x[0] != 'loop' or x[1] in w.loopvec], 'argument counts: program')
    return Task('numargs:program', lambda T, setup: run_visit(T, setup, NUM, 'ast_program_t', post, world=SemaWorld), info={'native': ('names', 'full')})


# ------------------------------------------------------------ looking a name up in the scopes
class FindWorld(OptWorld):
    """scope_ as a sequence of sets: scope k holds scope.n(k) elements scope.at(k, j), in any order"""

    def __init__(self, T, visitor):
        OptWorld.__init__(self, T, visitor)
        self.contracts = [(re.compile(r'^std::set<.*>::(begin|end|cbegin|cend)\('), self.c_range),
                          (re.compile(r'^std::_Rb_tree_const_iterator<.*>::operator(\+\+|\*|->)\('), self.c_iter),
                          (re.compile(r'^std::set<.*>::(count|contains)\('), self.c_count),
                          (re.compile(r'^std::operator(!=|==)\(std::_Rb_tree'), self.c_same)]
        self.D = z3.BitVec('scopes.n', 64)
        self.K, self.J = z3.BitVec('any.K', 64), z3.BitVec('any.J', 64)
        self.words = visitor == MUL
        self.num = z3.Function('scope.n', B64, B64)
        self.at = z3.Function('scope.at', B64, B64, B64)

    def lazy_obj(self, eng, st, r, off, kind, T=None):
        if r.id == 'this' and off == self.off(self.visitor, 'scope_'):
            if 'scopes' not in st.regs:
                q = Reg('scopes', 'scopes', 'seq')
                q.es, q.n, q.meta = 48, self.D, {}
                st.regs['scopes'] = q
                eng.bound(st, self.D, 1 << 20)
            return Vec('scopes', T)
        return OptWorld.lazy_obj(self, eng, st, r, off, kind, T)

    def set_of(self, eng, st, k):
        k = simp(bv(k, 64))
        rid = 'set[%s]' % str(k).replace('\n', '')
        if rid not in st.regs:
            r = Reg(rid, rid, 'seq')
            r.n = self.num(k)
            r.meta = {'scope': k}
            if self.words:
                r.es = 32
                r.f[0, 'string'] = Fun(lambda j: sv_of_sid(self.at(k, bv(j, 64))))
            else:
                r.es = 8
                r.f[0, 8] = Fun(lambda j: self.at(k, bv(j, 64)))
                r.meta.update(unwrap=self.unwrap, wrap=lambda e, q, v, p: self.new(e, q, 'elt:' + z3.simplify(v).sexpr().replace('\n', ''), (FUN, VAR), term=z3.simplify(v), where=(k, p.idx)))
            st.regs[rid] = r
            eng.bound(st, r.n, 1 << 20)
        return rid

    def c_range(self, eng, st, a, ins):
        """std::set: begin and end"""
        if not isinstance(a[0], RP) or a[0].r != 'scopes': raise Undecided('another set')
        eng.trap(st, z3.ULT(bv(a[0].idx, 64), self.D), 'scope out of range')
        rid = self.set_of(eng, st, a[0].idx)
        m = re.search(r'>::c?(begin|end)\(', eng.m.dem(self.callee(eng, st, ins))).group(1)
        return RP(rid, 0 if m == 'begin' else st.regs[rid].n)

    def c_count(self, eng, st, a, ins):
        """std::set: is the name wanted an element"""
        if not isinstance(a[0], RP) or a[0].r != 'scopes' or not self.words or not (isinstance(a[1], RP) and a[1].r == 'wanted'): raise Undecided('another set')
        eng.trap(st, z3.ULT(bv(a[0].idx, 64), self.D), 'scope out of range')
        k = simp(bv(a[0].idx, 64))
        eng.bound(st, self.num(k), 1 << 20)
        r, j = eng.symb('has'), eng.sym('where', 64)
        eng.assume(st, z3.If(r, z3.And(z3.ULT(j, self.num(k)), self.clash(k, j)), self.none_here(self.K == k)))
        st.ghost['hit'] = (k, j)
        return z3.If(r, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) if '>::count(' in eng.m.dem(self.callee(eng, st, ins)) else r

    def c_iter(self, eng, st, a, ins):
        """iteration over a std::set visits every element once"""
        m = re.search(r'>::operator(\+\+|\*|->)\(', eng.m.dem(self.callee(eng, st, ins))).group(1)
        p = eng.load(st, a[0], PTR)
        if m != '++':
            st.ghost['hit'] = (st.regs[p.r].meta['scope'], bv(p.idx, 64))
            return p
        eng.store(st, a[0], PTR, RP(p.r, simp(bv(p.idx, 64) + 1), p.off))
        return a[0]

    def c_same(self, eng, st, a, ins):
        """iterators are equal when they stand at the same element"""
        e = eng.ptr_eq(st, eng.load(st, a[0], PTR), eng.load(st, a[1], PTR))
        if 'operator!=' not in eng.m.dem(self.callee(eng, st, ins)): return e
        return (not e) if isinstance(e, bool) else z3.Not(e)

    def sid(self, k, j):
        """identity of the name of an element; B64"""
        t = self.at(k, j)
        if self.words: return t
        fn = z3.Function('ast.name.sid.64', B64, B64)(t)
        tok = z3.Function('ast.ptr.name.64', B64, B64)(t)
        vn = z3.Function('ast.str_.sid.64', B64, B64)(tok)
        ty = z3.Function('ast.type.32', B64, B32)(t)
        return z3.If(ty == self.E[TYPE_OF[FUN]], fn, vn)

    def clash(self, k, j): return self.sid(k, j) == self.target

    def none_here(self, cond): return z3.Implies(z3.And(cond, z3.ULT(self.K, self.D), z3.ULT(self.J, self.num(self.K))), z3.Not(self.clash(self.K, self.J)))


class FLoop:
    """scopes (or elements of one scope) looked at so far do not hold the name"""
    events = False

    def __init__(self, w): self.w, self.its = w, []

    def havoc(self, eng, st, sh): return ()

    def fact(self, p, v):
        w = self.w
        i = bv(p.idx, 64)
        if p.r == 'scopes':
            back = is_c(v.idx) and v.idx == 0
            return z3.And(z3.ULE(i, w.D), w.none_here(z3.ULT(w.K, i) if back else z3.UGE(w.K, i)))
        k = w.eng.cur_scope[p.r]
        return z3.And(z3.ULE(i, w.num(k)), w.none_here(z3.And(w.K == k, z3.ULT(w.J, i))))

    def mine(self, x): return isinstance(x, RP) and (x.r == 'scopes' or x.r.startswith('set['))

    def havoc2(self, eng, st, sh, hv):
        self.its = [(l, x, v) for l, (x, v, w) in hv.items() if self.mine(x)]
        eng.cur_scope = getattr(eng, 'cur_scope', {})
        for l, x, v in self.its:
            if x.r != 'scopes': eng.cur_scope[x.r] = sh.regs[x.r].meta['scope']
            sh.pc.append(self.fact(x, v))

    def cands(self, eng, st, sh, hv, cur):
        """the same for scopes counted by an index, upwards or downwards"""
        out, w = [], self.w
        for l, (x, v, wd) in hv.items():
            if wd not in (32, 64) or isinstance(x, Ptr) or z3.is_fp(x): continue
            up = lambda t, wd=wd: t if wd == 64 else z3.SignExt(32, t)
            for f in (lambda t: z3.And(z3.ULE(t, w.D), w.none_here(z3.ULT(w.K, t))), lambda t: z3.And(z3.ULE(t, w.D), w.none_here(z3.UGE(w.K, t))),
                      lambda t: z3.And(t >= -1, t < w.D, w.none_here(z3.Not(w.K <= t)))):
                out.append(('scopes', f(up(bv(v, wd))), f(up(bv(x, wd))), lambda s1, pv, f=f, l=l, up=up: f(up(cur(l, s1, pv)))))
        return out

    def settle(self, eng, st, sh, phis, backs, holds):
        from .loops import SummaryFail
        for l, x, v in self.its:
            if not holds([], self.fact(v, v)): raise SummaryFail('invariant at loop entry')
            for s1, ph, pc in backs:
                if not holds(pc, self.fact(self.cur(l, s1, ph), v)): raise SummaryFail('invariant of the search')


def t_find(visitor, fn):
    nm = 'lookup' if visitor == ANN else 'declared'

    def body(T, setup):
        w = FindWorld(T, visitor)
        eng = setup(w.engine())
        nonul = eng.nonul
        eng.nonul = lambda t: nonul(t) or t == 'wanted.sid' or 'scope.at' in t
        st = State()
        w.V = w.new(eng, st, 'this', visitor)
        w.target = z3.BitVec('wanted.sid', 64)
        r = Reg('wanted', 'wanted', 'cells')
        r.meta = {}
        r.objs[0] = sv_of_sid(w.target)
        st.regs['wanted'] = r
        eng.cut_loops = True
        eng.SYM_UNROLL = 1
        eng.cut_hook = lambda e, s, key, phis: FLoop(w)
        eng.canary = False
        the_obj(eng, st, RP('this', 0, w.off(visitor, 'scope_')), 'vector', T)

        def end(s, k, v):
            if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
            eng.canary = True
            if visitor == MUL:
                if v is True or not isinstance(v, bool) and must(eng, tobool(v)):
                    # found: some scope holds it
                    hits = [s.ghost['hit']] if 'hit' in s.ghost else []
                    eng.prove(s, z3.Or([z3.And(w.clash(k2, j), z3.ULT(k2, w.D), z3.ULT(j, w.num(k2))) for k2, j in hits] or [z3.BoolVal(False)]), nm + ': yes only if some scope holds the name')
                else:
                    eng.prove(s, z3.Not(tobool(v)) if not isinstance(v, bool) else not v, nm + ': a definite answer')
                    eng.prove(s, w.none_here(z3.BoolVal(True)), nm + ': no only if no scope holds the name')
                return
            if isinstance(v, Null): return eng.prove(s, w.none_here(z3.BoolVal(True)), nm + ': nothing only if no scope holds the name')
            p = v.p if isinstance(v, MaybeP) else v
            wh = s.regs[p.r].meta.get('where') if isinstance(p, RP) else None
            if wh is None: return eng.prove(s, False, nm + ': yields a declaration in scope')
            k2, j = bv(wh[0], 64), bv(wh[1], 64)
            eng.prove(s, z3.And(z3.ULT(k2, w.D), z3.ULT(j, w.num(k2)), w.clash(k2, j)), nm + ': yields a visible declaration of that name')
            eng.prove(s, w.none_here(z3.UGT(w.K, k2)), nm + ': no inner scope declares the name')
        eng.on_end = end
        eng.start(st, find1(T, fn), [w.V, RP('wanted')])
        eng.explore(st)
        return eng
    return Task('find:' + nm, body, info={'native': ('names', 'full')})


# ------------------------------------------------------------ slots of variables
class OffWorld(PassWorld):
    same_fields = OptWorld.same_fields
    """pregen_offset_t: offset_ is a stack of next free slots.  dispatch(child) keeps its depth and what lies below the top,
    never lowers the top, and leaves stack_size_ at least as high as before and as the top"""

    def __init__(self, T, visitor):
        PassWorld.__init__(self, T, visitor)
        self.links[OFF, 'errs_'] = lambda e, s, r: self.new(e, s, 'errors', 'error_manager_t')

    def make(self, eng, cls):
        st = PassWorld.make(self, eng, cls)
        r = Reg('offs', 'offs', 'seq')
        r.es, r.n = 4, z3.BitVec('offs.n', 64)
        setup_seq(eng, r, 'offs', 'int')
        st.regs['offs'] = r
        self.n0, self.cls = r.n, cls
        eng.bound(st, r.n, 1 << 20)
        st.regs['this'].objs[self.off(OFF, 'offset_')] = Vec('offs', 'int')
        self.ssoff, self.gooff = self.off(OFF, 'stack_size_'), self.off(OFF, 'global_offset_')
        self.ss0, self.g0 = self.ss(eng, st), bv(eng.load(st, RP('this', 0, self.gooff), INT(32)), 32)
        eng.seq_field(st, st.regs['offs'], 0, 4, INT(32))
        self.f0 = st.regs['offs'].f[0, 4]
        self.top0 = bv(self.f0.read(self.n0 - 1), 32)
        if cls not in (FUN, 'ast_program_t'): eng.assume(st, z3.And(z3.UGE(self.n0, 1), self.top0 >= 0, self.top0 < 1 << 30, self.ss0 >= self.top0, self.ss0 < 1 << 30))
        eng.assume(st, z3.And(self.g0 >= 0, self.g0 < 1 << 20))
        eng.trusted.add('fewer than 2^30 variables per function, 2^20 globals')
        st.ghost['floor'] = self.top0 if cls not in (FUN, 'ast_program_t') else z3.BitVecVal(0, 32)
        return st

    def ss(self, eng, st): return bv(eng.load(st, RP('this', 0, self.ssoff), INT(32)), 32)

    def top(self, st):
        r = st.regs['offs']
        return bv(r.f[0, 4].read(simp(bv(r.n, 64) - 1)), 32)

    def int_inv(self, eng, st, r, cls, f, v):
        PassWorld.int_inv(self, eng, st, r, cls, f, v)
        if (cls, f) == (VAR, 'scope') and r.meta.get('role', '').endswith('.args'): eng.assume(st, v == self.E['e_arg'])
        if (cls, f) == (VAR, 'scope') and r.meta.get('role', '').endswith('.children'): eng.assume(st, v == self.E['e_global'])

    def after_child(self, eng, s, q):
        if self.cls == 'ast_program_t':
            # a function resets what it needs
            s.log.append(('unit', q.r))
            return
        t0, s0 = self.top(s), self.ss(eng, s)
        n = bv(s.regs['offs'].n, 64)
        eng.prove(s, z3.UGE(n, 1), 'a level is open when a child is visited')
        eng.prove(s, z3.And(t0 >= s.ghost['floor'], s0 >= t0, t0 >= 0), 'slots of enclosing and earlier variables are not handed out again')
        t1, s1 = eng.sym('top', 32), eng.sym('stack_size', 32)
        eng.assume(s, z3.And(t1 >= t0, s1 >= s0, s1 >= t1, s1 < 1 << 30))
        w = s.wr('offs')
        w.f[0, 4] = w.f[0, 4].write(simp(n - 1), t1)
        eng.store(s, RP('this', 0, self.ssoff), INT(32), s1)
        if self.cls == BLK: s.ghost['floor'] = t1
        if self.cls == FUN: s.ghost['need'] = s1

    def cut_hook(self, eng, st, key, phis): return OLoop(self, eng, st, key)

    def below(self, f, n, f0):
        i = z3.BitVec('any.level', 64)
        return z3.Implies(z3.ULT(i, n), bv(f.read(i), 32) == bv(f0.read(i), 32))

    def loop_body(self, eng, s, loop, ev, k):
        d = [x for x in ev if x[0] == 'dispatch']
        k = bv(k, 64)
        if self.cls == FUN and not d:
            # arguments: slot of argument i of n is i - n
            v = the_obj(eng, s, RP('n', 0, self.off(FUN, 'args')), 'vector', VT_OF[FUN, 'args']).seq
            n = bv(s.regs[v].n, 64)
            o = self.off(VAR, 'offset')
            wr = [(r.meta['elem'][1], r.cells[o][1]) for rid, r in s.regs.items() if r.meta and r.meta.get('elem') and r.meta['elem'][0] == v and o in r.cells and not (o in r.meta['det'] and r.meta['det'][o][1] is r.cells[o][1])]
            eng.prove(s, len(wr) == 1, 'one argument per turn')
            for i, val in wr:
                i = bv(i, 64)
                eng.prove(s, z3.Or(i == k, i == n - 1 - k), 'each argument in turn')
                eng.prove(s, bv(val, 32) == z3.Extract(31, 0, i - n), 'argument i of n has slot i - n')
            loop.args = self.argloop = v
            self.argk = loop.k
            return
        if self.cls == 'ast_program_t':
            o = self.off(VAR, 'offset')
            el = [r for rid, r in s.regs.items() if r.meta and r.meta.get('elem') and r.meta['elem'][0] == 'n.children']
            eng.prove(s, len(el) == 1 and bv(el[0].meta['elem'][1], 64) == k, 'every global and function in turn')
            if len(el) != 1: return
            r = el[0]
            self.loopvec[loop.k] = 'n.children'
            g = bv(eng.load(s, RP('this', 0, self.gooff), INT(32)), 32)
            eng.prove(s, g >= loop.g, 'slots of globals are not handed out again')
            if must(eng, self.is_cls(s, RP(r.id), FUN)):
                eng.prove(s, len(d) == 1 and d[0][1] == r.id, 'every function gets its slots')
                return
            eng.prove(s, z3.Not(self.is_cls(s, RP(r.id), FUN)), 'kind of unit settled')
            nc = bv(ld(self, eng, s, RP(r.id), VAR, 'is_const', INT(8)), 8) == 0
            val = bv(ld(self, eng, s, RP(r.id), VAR, 'offset', INT(32)), 32)
            eng.prove(s, z3.Implies(nc, z3.And(val >= loop.g, val < g)), 'a global gets a slot of its own')
            eng.prove(s, not d, 'globals are not visited as locals')
            return
        PassWorld.loop_body(self, eng, s, loop, d, k)


class OLoop(WLoop):
    writes = True

    def __init__(self, w, eng, st, key):
        WLoop.__init__(self, w, eng, st, key)
        st.regs[self.k].cells[8] = (4, z3.BitVecVal(0, 32))

    def havoc(self, eng, st, sh):
        WLoop.havoc(self, eng, st, sh)
        w = self.w
        if w.cls == 'ast_program_t': return ()
        self.n = bv(st.regs['offs'].n, 64)
        if is_c(simp(self.n)) and int(str(simp(self.n))) == 0: return ()
        self.t0, self.t = w.top(st), eng.sym('looptop', 32)
        sh.pc.append(z3.And(self.t >= self.t0, self.t < 1 << 30))
        x = sh.wr('offs')
        x.f[0, 4] = self.fl = x.f[0, 4].write(simp(self.n - 1), self.t)
        if w.cls == BLK: sh.ghost['floor'] = self.t
        return ('offs',)

    def key32(self, hv):
        a, b = hv.get(('cell', self.k, 0, 8)), hv.get(('cell', self.k, 8, 4))
        return (a[0], b[0]) if a and b else None

    def havoc2(self, eng, st, sh, hv):
        w = self.w
        p = self.key32(hv)
        if p: sh.pc.append(z3.Extract(31, 0, bv(p[0], 64)) == bv(p[1], 32))
        s = hv.get(('cell', 'this', w.ssoff, 4))
        if s and w.cls != 'ast_program_t': sh.pc.append(z3.And(bv(s[0], 32) >= bv(s[1], 32), bv(s[0], 32) >= self.t, bv(s[0], 32) < 1 << 30))
        if w.cls == FUN and s: sh.ghost['need'] = bv(s[0], 32)
        g = hv.get(('cell', 'this', w.gooff, 4))
        if g: sh.pc.append(z3.And(bv(g[0], 32) >= 0, bv(g[0], 32) < 1 << 20))
        self.g = bv(sh.regs['this'].cells[w.gooff][1], 32)

    def settle(self, eng, st, sh, phis, backs, holds): pass

    def back(self, eng, s, collect):
        WLoop.back(self, eng, s, collect)
        c = s.regs[self.k].cells[8][1]
        s.wr(self.k).cells[8] = (4, simp(bv(c, 32) + 1))
        w = self.w
        if collect or w.cls == 'ast_program_t' or not hasattr(self, 't'): return
        eng.prove(s, bv(s.regs['offs'].n, 64) == self.n, 'levels balance in a loop')
        f = s.regs['offs'].f[0, 4]
        if not [x for x in s.log[self.nlog + 1:] if x[0] == 'dispatch'] and f is self.fl and w.cls == FUN: return
        eng.prove(s, w.below(f, self.n - 1, self.fl), 'outer levels are left alone')
        eng.prove(s, z3.And(w.top(s) >= s.ghost['floor'], w.top(s) >= self.t, w.ss(eng, s) >= w.top(s)), 'slots in use are not handed out again')


def offs_kept(w, eng, s, nm):
    r = s.regs['offs']
    eng.prove(s, bv(r.n, 64) == w.n0, nm + ': levels opened are closed')
    eng.prove(s, w.below(r.f[0, 4], w.n0 - 1, w.f0), nm + ': outer levels are left alone')
    eng.prove(s, w.top(s) >= w.top0, nm + ': slots in use are not handed out again')
    ss = w.ss(eng, s)
    eng.prove(s, z3.And(ss >= w.ss0, ss >= w.top(s)), nm + ': the frame covers every slot')
    eng.prove(s, bv(eng.load(s, RP('this', 0, w.gooff), INT(32)), 32) == w.g0, nm + ': slots of globals are left alone')


def t_slot():
    """a local variable gets a slot that no enclosing or earlier variable has"""
    nm = 'slot'

    def post(w, eng, s, k, v):
        if k == 'throw': return eng.prove(s, False, nm + ': does not throw')
        offs_kept(w, eng, s, nm)
        sc = bv(ld(w, eng, s, w.n, VAR, 'scope', INT(32)), 32)
        nc = bv(ld(w, eng, s, w.n, VAR, 'is_const', INT(8)), 8) == 0
        o = bv(ld(w, eng, s, w.n, VAR, 'offset', INT(32)), 32)
        loc = sc == w.E['e_local']
        eng.prove(s, z3.Implies(z3.And(loc, nc), z3.And(o >= w.top0, o < w.top(s))), nm + ': a local variable gets a free slot')
        eng.prove(s, z3.Implies(z3.Not(loc), o == w.sym('n', 'offset', 32)), nm + ': arguments and globals keep theirs')
        w.same_fields(eng, s, VAR, ('offset',), nm)
    return Task('slot:declaration', lambda T, setup: run_visit(T, setup, OFF, VAR, post, world=OffWorld), info={'native': ('names', 'host', 'full')})


def t_slots(cls):
    nm = 'slots: ' + short(cls)

    def post(w, eng, s, k, v):
        if k == 'throw': return eng.prove(s, False, nm + ': does not throw')
        offs_kept(w, eng, s, nm)
        decls_once(w, eng, s, cls, nm)
        w.same_fields(eng, s, cls, (), nm)
    return Task('slot:' + short(cls), lambda T, setup: run_visit(T, setup, OFF, cls, post, world=OffWorld), info={'native': ('names', 'host', 'full')})


def t_slotfun():
    nm = 'slots: function'

    def post(w, eng, s, k, v):
        if k == 'throw': return eng.prove(s, False, nm + ': does not throw')
        sysc = bv(ld(w, eng, s, w.n, FUN, 'is_syscall', INT(8)), 8) != 0
        if must(eng, sysc): return w.same_fields(eng, s, FUN, (), nm)
        eng.prove(s, z3.Not(sysc), nm + ': kind of function settled')
        loops = [x for x in s.log if x[0] == 'loop']
        args = [x for x in loops if x[1] == getattr(w, 'argk', None)]
        seq = the_obj(eng, s, RP('n', 0, w.off(FUN, 'args')), 'vector', VT_OF[FUN, 'args']).seq
        n = bv(s.regs[seq].n, 64)
        if args: eng.prove(s, bv(s.regs[args[0][1]].cells[0][1], 64) == n, nm + ': every argument gets its slot')
        else: eng.prove(s, n == 0, nm + ': every argument gets its slot')
        rest = [x for x in s.log if x not in args]
        decls_once2(w, eng, s, FUN, rest, nm)
        b = ld(w, eng, s, w.n, FUN, 'body')
        size = bv(ld(w, eng, s, w.n, FUN, 'stack_size', INT(32)), 32)
        eng.prove(s, size >= s.ghost['need'] if 'need' in s.ghost else size >= 0, nm + ': the frame is large enough for every slot')
        eng.prove(s, bv(eng.load(s, RP('this', 0, w.gooff), INT(32)), 32) == w.g0, nm + ': slots of globals are left alone')
        w.same_fields(eng, s, FUN, ('stack_size',), nm)
    return Task('slot:function', lambda T, setup: run_visit(T, setup, OFF, FUN, post, world=OffWorld), info={'native': ('names', 'host', 'full')})


def decls_once2(w, eng, s, cls, log, nm):
    """like decls_once; visiting the arguments is not needed"""
    q = ld(w, eng, s, w.n, cls, 'body')
    r = (q.p if isinstance(q, MaybeP) else q).r
    c = len([x for x in log if x == ('dispatch', r)])
    if c == 0: eng.prove(s, z3.Not(q.c) if isinstance(q, MaybeP) else False, nm + ': visits its body')
    else: eng.prove(s, c == 1, nm + ': visits its body once')
    eng.prove(s, not [x for x in log if x[0] == 'dispatch' and x[1] != r], nm + ': visits nothing else')


def t_slotprog():
    nm = 'slots: program'

    def post(w, eng, s, k, v):
        if k == 'throw': return eng.prove(s, False, nm + ': does not throw')
        loops = [x for x in s.log if x[0] == 'loop']
        seq = the_obj(eng, s, RP('n', 0, w.off('ast_program_t', 'children')), 'vector', NP).seq
        n = bv(s.regs[seq].n, 64)
        eng.prove(s, n == 0 if not loops else len(loops) == 1 and bv(s.regs[loops[0][1]].cells[0][1], 64) == n, nm + ': every global and function gets its slots')
    return Task('slot:program', lambda T, setup: run_visit(T, setup, OFF, 'ast_program_t', post, world=OffWorld), info={'native': ('names', 'host', 'full')})


def slot_tasks(): return [t_slot(), t_slots(BLK), t_slots('ast_stmt_if_t'), t_slotfun(), t_slotprog()]


def sema_tasks():
    return (slot_tasks() + [t_find(ANN, r'^nano::sema_decl_annotate_t::find_decl\('), t_find(MUL, r'^nano::sema_multi_decls_t::is_def_\(')] + [t_use(c) for c in USES] + [t_scope(ANN, c) for c in ('ast_stmt_if_t', 'ast_stmt_while_t', FUN)] + [t_declare(), t_globalscope()] +
            [t_scope(MUL, c) for c in ('ast_stmt_if_t', 'ast_stmt_while_t', 'ast_stmt_for_t')] + [t_dup(VAR), t_dup(FUN), t_dupprog(), t_numargs(), t_numprog()] +
            [t_constuse(c) for c in CONSTUSE] + walk_tasks((ANN, MUL, NUM, OFF)))
