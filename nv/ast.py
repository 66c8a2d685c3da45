"""Symbolic syntax trees and compiler objects, materialised on demand.

Every object is a cell block whose fields get a value the first time they are read: integers a fresh symbol named after the
access path, pointers a further object (nullable unless the tree invariant says otherwise), strings and vectors an arbitrary
text or sequence.  Names are derived from the access path only, so every execution path agrees on them.  Distinct paths are
distinct objects: the syntax tree is a tree (see DESIGN.md, assumptions)."""
import re, time
import z3
from .sx import *
from .sx import Reg
from .models import *
from .models import Vec, SV, setup_seq, sv_of_sid, MODELS, tsize, the_obj, set_obj, callinfo, targs, str_eq, sid_of, get_sv, sv_lit, STR_T
from .ir import Unsupported, PTR, INT

B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)
ERR_TI = '_ZTIN4nano7error_tE'

VAR, FUN = 'ast_decl_var_t', 'ast_decl_func_t'
BLK = 'ast_block_t'
EXPR = ('ast_exp_ident_t', 'ast_exp_deref_t', 'ast_exp_lit_str_t', 'ast_exp_lit_var_t', 'ast_exp_lit_float_t', 'ast_exp_none_t',
        'ast_exp_array_init_t', 'ast_exp_bin_op_t', 'ast_exp_unary_op_t', 'ast_exp_call_t', 'ast_exp_member_t')
STMT = ('ast_stmt_if_t', 'ast_stmt_while_t', 'ast_stmt_for_t', 'ast_stmt_return_t', 'ast_stmt_assign_var_t', 'ast_stmt_assign_array_t',
        'ast_stmt_assign_member_t', 'ast_stmt_call_t', VAR)
NODES = EXPR + STMT + (FUN, BLK, 'ast_program_t')
TYPE_OF = {c: re.sub('_t$', '_e', c) for c in NODES}
TYPE_OF['ast_exp_deref_t'] = 'ast_exp_array_e'

# (class, member) -> (class or classes of the object pointed to, never null)
TREE = {
    ('ast_exp_ident_t', 'name'): ('token_t', True), ('ast_exp_ident_t', 'decl'): ((VAR, FUN), True),
    ('ast_exp_deref_t', 'token'): ('token_t', True), ('ast_exp_deref_t', 'lhs'): (EXPR, True), ('ast_exp_deref_t', 'index'): (EXPR, True),
    ('ast_exp_lit_str_t', 'token'): ('token_t', False), ('ast_exp_lit_var_t', 'token'): ('token_t', False),
    ('ast_exp_lit_float_t', 'token'): ('token_t', False), ('ast_exp_none_t', 'token'): ('token_t', False),
    ('ast_exp_array_init_t', 'name'): ('token_t', True), ('ast_exp_array_init_t', 'expr'): (EXPR, True),
    ('ast_exp_bin_op_t', 'token'): ('token_t', True), ('ast_exp_bin_op_t', 'left'): (EXPR, True), ('ast_exp_bin_op_t', 'right'): (EXPR, True),
    ('ast_exp_unary_op_t', 'op'): ('token_t', True), ('ast_exp_unary_op_t', 'child'): (EXPR, True),
    ('ast_exp_call_t', 'token'): ('token_t', True), ('ast_exp_call_t', 'callee'): (EXPR, True), ('ast_exp_call_t', 'args'): (EXPR, True),
    ('ast_exp_member_t', 'name'): ('token_t', True), ('ast_exp_member_t', 'member'): ('token_t', True), ('ast_exp_member_t', 'decl'): (VAR, True),
    ('ast_stmt_if_t', 'token'): ('token_t', True), ('ast_stmt_if_t', 'expr'): (EXPR, True),
    ('ast_stmt_if_t', 'then_block'): (BLK, False), ('ast_stmt_if_t', 'else_block'): (BLK, False),
    ('ast_stmt_while_t', 'token'): ('token_t', True), ('ast_stmt_while_t', 'expr'): (EXPR, True), ('ast_stmt_while_t', 'body'): (BLK, False),
    ('ast_stmt_for_t', 'token'): ('token_t', True), ('ast_stmt_for_t', 'name'): ('token_t', True), ('ast_stmt_for_t', 'start'): (EXPR, True),
    ('ast_stmt_for_t', 'end'): (EXPR, True), ('ast_stmt_for_t', 'body'): (BLK, False), ('ast_stmt_for_t', 'decl'): (VAR, True),
    ('ast_stmt_return_t', 'token'): ('token_t', True), ('ast_stmt_return_t', 'expr'): (EXPR, False),
    ('ast_stmt_assign_var_t', 'name'): ('token_t', True), ('ast_stmt_assign_var_t', 'expr'): (EXPR, True), ('ast_stmt_assign_var_t', 'decl'): (VAR, True),
    ('ast_stmt_assign_array_t', 'name'): ('token_t', True), ('ast_stmt_assign_array_t', 'index'): (EXPR, True),
    ('ast_stmt_assign_array_t', 'expr'): (EXPR, True), ('ast_stmt_assign_array_t', 'decl'): (VAR, True),
    ('ast_stmt_assign_member_t', 'name'): ('token_t', True), ('ast_stmt_assign_member_t', 'member'): ('token_t', True),
    ('ast_stmt_assign_member_t', 'expr'): (EXPR, True), ('ast_stmt_assign_member_t', 'decl'): (VAR, True),
    ('ast_stmt_call_t', 'expr'): ('ast_exp_call_t', True),
    (FUN, 'token'): ('token_t', False), (FUN, 'end'): ('token_t', False), (FUN, 'body'): (BLK, False), (FUN, 'args'): (VAR, True), (FUN, 'locals'): (VAR, True),
    (VAR, 'name'): ('token_t', True), (VAR, 'expr'): (EXPR, False),
    (BLK, 'nodes'): (STMT + (BLK,), True), ('ast_program_t', 'children'): ((FUN, VAR), True),
}


class AstWorld:
    """tree: overrides of TREE for this phase; links: {(class, member): pointer} known object graph"""

    def __init__(self, T, tree=None):
        self.t, self.E = T, T.enums
        self.tree = dict(TREE)
        self.tree.update(tree or {})
        self.byoff = {}
        for (c, f), o in T.offs.items(): self.byoff.setdefault((c, o), f)
        self.links = {}
        self.termof = {}
        self.contracts = []

    def off(self, c, f): return self.t.off(c, f)

    def engine(self, **kw):
        e = Engine(self.t.mod, list(MODELS), **kw)
        e.contracts = list(self.contracts) + [(re.compile(r'^nano::error_manager_t::(?!on_error_)\w+\('), self.c_error),
                                              (re.compile(r'^std::map<int, nano::line_t.*>::operator\[\]'), self.c_linetable),
                                              (re.compile(r'^std::map<int, nano::line_t.*>::find\('), self.c_linefind),
                                              (re.compile(r'^std::map<int, nano::line_t.*>::end\('), lambda eng, st, a, ins: NULL),
                                              (re.compile(r'^std::map<std::__cxx11::basic_string<char.*, int,.*>::operator\[\]'), self.c_strmap)]
        e.contracts += [(re.compile(r'^operator new\(unsigned long\)'), self.c_new), (re.compile(r'^operator delete\(void\*'), lambda eng, st, a, ins: None)]
        e.cut_loops = 'both'
        e.nonul = lambda t: t.endswith('name.sid') or t.endswith('str_.sid') or t.startswith('(ast.str_.sid')
        e.cut_hook = self.cut_hook
        self.eng = e
        return e

    def cut_hook(self, eng, st, key, phis): return None

    # ------------------------------------------------------------ objects
    def new(self, eng, st, rid, cls, **meta):
        """pointer to the object named rid (created when first mentioned)"""
        if rid not in st.regs:
            r = Reg(rid, rid, 'cells')
            r.lazy = self.lazy
            r.meta = dict(meta, cls=cls, lazy_obj=self.lazy_obj, det={})
            if 'term' in meta: self.termof[rid] = meta['term']
            st.regs[rid] = r
        return RP(rid)

    def cls_of(self, eng, st, rid):
        """exact class of an object, or None"""
        c = st.regs[rid].meta['cls']
        if isinstance(c, str) or c is None: return c
        ty = self.type_term(rid)
        for k in c:
            if not eng.feasible(ty != self.E[TYPE_OF[k]]): return k
        return None

    def type_term(self, rid): return self.sym(rid, 'type', 32)

    def sym(self, rid, f, w):
        """the value of an integer member; a function of the pointer where the object is an element of a list"""
        t = self.termof.get(rid)
        if t is not None: return z3.Function('ast.%s.%d' % (f, w), B64, z3.BitVecSort(w))(t)
        return z3.BitVec('%s.%s' % (rid, f), w)

    def is_cls(self, st, p, *cls):
        """Bool: the object is of one of these classes"""
        c = st.regs[p.r].meta['cls']
        if isinstance(c, str): return z3.BoolVal(c in cls)
        return z3.Or([self.type_term(p.r) == self.E[TYPE_OF[k]] for k in cls])

    def lazy(self, eng, st, r, off, ty):
        v = self.lazy_(eng, st, r, off, ty)
        r.meta['det'][off] = (eng.tsize(ty), v)
        return v

    def lazy_(self, eng, st, r, off, ty):
        cls = r.meta['cls']
        if isinstance(cls, tuple):
            if off == self.off('ast_node_t', 'type'):
                t = self.type_term(r.id)
                eng.assume(st, z3.Or([t == self.E[TYPE_OF[k]] for k in cls]))
                return t
            if ty.k == 'ptr' and off == 0 and r.meta.get('role') == 'ancestor':
                # only replace_child is called on a node of unknown kind, and it is under contract
                return RP(eng.gptr(st, '_ZTVN4nano10ast_node_tE').r, 0, 16)
            cls = self.cls_of(eng, st, r.id)
            if cls is None: raise Undecided('member of an object of unknown class %s+%d' % (r.id, off))
        if cls in TYPE_OF and off == self.off('ast_node_t', 'type') and ty.k == 'int': return self.E[TYPE_OF[cls]]
        if ty.k == 'ptr' and off == 0 and (cls in TYPE_OF or cls in self.VT):
            nm = '_ZTVN4nano%d%sE' % (len(cls), cls)
            p = eng.gptr(st, nm)
            return RP(p.r, 0, 16)
        f = self.byoff.get((cls, off))
        h = self.links.get((cls, f))
        if h is not None:
            v = h(eng, st, r) if callable(h) else h
            if v is not None: return v
        nm = '%s.%s' % (r.id, f or off)
        if ty.k == 'ptr':
            k, nn = self.tree.get((cls, f), (None, False))
            t = self.termof.get(r.id)
            if t is None:
                p = self.new(eng, st, nm, k, role=f, parent=r.id)
                return p if nn else MaybeP(z3.Bool(nm + '.nn'), p)
            t = self.sym(r.id, 'ptr.%s' % f, 64)
            p = self.new(eng, st, nm, k, role=f, parent=r.id, term=t)
            return p if nn else MaybeP(t != 0, p)
        if ty.k == 'int':
            v = self.sym(r.id, f or off, ty.w)
            self.int_inv(eng, st, r, cls, f, v)
            return v
        if ty.k == 'float': return z3.fpBVToFP(self.sym(r.id, f or off, 32), F32)
        raise Undecided('lazy %r at %s' % (ty, nm))
    VT = ('error_manager_t',)

    def int_inv(self, eng, st, r, cls, f, v):
        if f in ('is_const', 'is_syscall', 'is_varargs'): eng.assume(st, z3.ULE(v, 1))
        if (cls, f) == (VAR, 'scope'): eng.assume(st, z3.Or([v == self.E[x] for x in ('e_local', 'e_global', 'e_arg')]))

    def lazy_obj(self, eng, st, r, off, kind, T=None):
        cls = self.cls_of(eng, st, r.id)
        f = self.byoff.get((cls, off))
        nm = '%s.%s' % (r.id, f or off)
        if kind == 'string': return sv_of_sid(self.sym(r.id, (f or str(off)) + '.sid', 64))
        if kind == 'vector': return Vec(self.vec(eng, st, nm, T, self.tree.get((cls, f), (None, False))), T)
        if kind == 'map': return None
        raise Undecided('%s at %s' % (kind, nm))

    def text(self, nm): return sv_of_sid(z3.BitVec(nm + '.sid', 64))

    def vec(self, eng, st, nm, T, child):
        if nm in st.regs: return nm
        r = Reg(nm, nm, 'seq')
        r.es, r.n = tsize(eng, T), z3.BitVec(nm + '.n', 64)
        setup_seq(eng, r, nm, T)
        r.meta = dict(r.meta, name=nm)
        if T.endswith('*') or T.startswith('std::unique_ptr'):
            k, nn = child

            def wrap(eng, st, v, p):
                if isinstance(v, Ptr): return v
                v = z3.simplify(v)
                back = self.terms.get(v.sexpr())
                if back is not None: return back
                q = self.new(eng, st, 'elt:' + v.sexpr().replace('\n', ''), k, elem=(nm, p.idx), role=nm, term=v)
                return q if nn else MaybeP(v != 0, q)
            r.meta['wrap'] = wrap
            r.meta['unwrap'] = self.unwrap
        if T == STR_T: r.f[0, 'string'] = Fun(lambda i: sv_of_sid(z3.Function(nm + '.sid', B64, B64)(bv(i, 64))))
        st.regs[nm] = r
        eng.bound(st, r.n, 1 << 20)
        eng.trusted.add('no list in the syntax tree or program tables has 2^20 entries or more')
        return nm

    def elem(self, eng, st, seq, i):
        """element i of a list of nodes (no bounds check)"""
        r = st.regs[seq]
        v = eng.seq_field(st, r, 0, 8, PTR).read(i)
        return r.meta['wrap'](eng, st, v, RP(seq, i))

    terms = {}

    def unwrap(self, eng, st, v):
        """pointer -> term kept in a sequence"""
        if isinstance(v, Null): return z3.BitVecVal(0, 64)
        if isinstance(v, RP) and v.r.startswith('elt:') and 0: pass
        if isinstance(v, RP) and is_c(v.idx) and v.idx == 0 and is_c(v.off) and v.off == 0:
            t = z3.BitVec('&' + v.r, 64)
            self.terms[t.sexpr()] = v
            return t
        if isinstance(v, MaybeP):
            t = z3.BitVec('&?' + v.p.r, 64)
            self.terms[t.sexpr()] = v
            return t
        raise Undecided('pointer %r stored in a sequence' % v)

    # ---------------------------------------------------------- contracts
    def c_new(self, eng, st, a, ins):
        """operator new: a fresh object (memory is not exhausted)"""
        n = st.ghost.get('nnew', 0)
        st.ghost['nnew'] = n + 1
        rid = 'new.%d' % n
        r = Reg(rid, rid, 'cells')
        r.meta = {'new': True, 'size': a[0], 'cls': None}
        st.regs[rid] = r
        eng.trusted.add('operator new does not fail')
        return RP(rid)

    def c_error(self, eng, st, a, ins):
        """error_manager_t reports: throws error_t (line of the token); the texts are not part of any property"""
        nm = re.match(r'nano::error_manager_t::(\w+)', eng.m.dem(self.callee(eng, st, ins))).group(1)
        st.log.append(('error', nm, a[1] if len(a) > 1 else None))
        return Throw(ERR_TI, nm)

    def callee(self, eng, st, ins):
        c = ins.a[1]
        if c[0] == 'glob': return c[1]
        return eng.val(st, st.frames[-1], c, PTR).name

    def c_linetable(self, eng, st, a, ins):
        """std::map<int, line_t>::operator[]: the entry of that key, created when absent"""
        p = a[0]
        rid = '%s.linetable' % p.r
        self.linetable(eng, st, rid)
        k = z3.ZeroExt(32, bv(eng.load(st, a[1], INT(32)), 32))
        w = st.wr(rid)
        w.f[0, 'has'] = w.f[0, 'has'].write(simp(k), z3.BoolVal(True))
        return RP(rid, simp(k))

    def c_linefind(self, eng, st, a, ins):
        """std::map<int, line_t>::find: a node holding that key and its entry, or end()"""
        rid = '%s.linetable' % a[0].r
        self.linetable(eng, st, rid)
        k = simp(z3.ZeroExt(32, bv(eng.load(st, a[1], INT(32)), 32)))
        l = st.regs[rid]
        nid = rid + '.node'
        if nid not in st.regs:
            r = Reg(nid, nid, 'seq')
            r.es, r.n = 48, z3.BitVecVal(-1, 64)
            r.meta = {'nobounds': True}
            v = l.f[0, 8]
            r.f[32, 4] = Fun(lambda i: z3.Extract(31, 0, bv(i, 64)))
            r.f[36, 4] = Fun(lambda i: z3.Extract(31, 0, bv(v.read(i), 64)))
            r.f[40, 4] = Fun(lambda i: z3.Extract(63, 32, bv(v.read(i), 64)))
            r.f[36, 8] = Fun(lambda i: bv(v.read(i), 64))
            st.regs[nid] = r
        return MaybeP(l.f[0, 'has'].read(k), RP(nid, k))

    def linetable(self, eng, st, rid):
        if rid in st.regs: return
        r = Reg(rid, rid, 'seq')
        r.es, r.n = 8, z3.BitVecVal(1 << 33, 64)
        f = z3.Function('linetable', B64, B64)
        h = z3.Function('linetable.has', B64, z3.BoolSort())
        r.f[0, 8] = Fun(lambda i: f(bv(i, 64)))
        r.f[0, 'has'] = Fun(lambda i: h(bv(i, 64)))
        r.meta = {}
        st.regs[rid] = r

    def c_strmap(self, eng, st, a, ins):
        """std::map<std::string, int>::operator[]: the slot of that key (extensional in the text)"""
        p = a[0]
        rid = '%s.strmap%s' % (p.r, p.off)
        if rid not in st.regs:
            r = Reg(rid, rid, 'seq')
            r.es, r.n = 4, z3.BitVecVal(-1, 64)
            f = z3.Function(rid, B64, B32)
            r.f[0, 4] = Fun(lambda i: f(bv(i, 64)))
            r.meta = {'nobounds': True}
            st.regs[rid] = r
        return RP(rid, sid_of(eng, st, get_sv(eng, st, a[1])))


# --------------------------------------------------------------- spec paths
class Choice:
    """depth-first enumeration of the undetermined branches of a specification"""

    def __init__(self, eng, st): self.eng, self.st, self.pre, self.log = eng, st, [], []

    def b(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = len(self.log)
        if k < len(self.pre): v = self.pre[k]
        else:
            t, f = self.eng.feasible(c), self.eng.feasible(z3.Not(c))
            if t != f:
                return t
            v = True
        self.log.append(v)
        self.eng.solver.add(c if v else z3.Not(c))
        return v


def spec_paths(eng, st, fn):
    """run fn(choice) on every feasible branch of the specification"""
    pre = []
    n = 0
    while True:
        ch = Choice(eng, st)
        ch.pre = pre
        eng.solver.push()
        try: fn(ch)
        finally: eng.solver.pop()
        n += 1
        l = list(ch.log)
        while l and not l[-1]: l.pop()
        if not l: return n
        if n > 400: raise Undecided('too many branches of the specification')
        if eng.deadline and time.time() > eng.deadline: raise Undecided('time budget exhausted')
        l[-1] = False
        pre = l


def must(eng, c):
    if isinstance(c, int): return bool(c)
    return not eng.feasible(z3.Not(c))
