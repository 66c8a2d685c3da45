"""Tree traversal: ast_visitor_t::dispatch and the default visit functions every compiler pass relies on."""
import re
import z3
from .sx import *
from .sx import Reg
from .ast import *
from .ast import AstWorld, must, VAR, FUN, BLK, NODES, TYPE_OF
from .models import Vec, setup_seq, the_obj
from .ir import Unsupported, PTR, INT
from .task import Task
from .vmtasks import find1

NP = 'nano::ast_node_t*'


class WLoop:
    """a loop that dispatches list elements: cut at an arbitrary iteration"""
    events = True

    def __init__(self, w, eng, st, key):
        self.w, self.key = w, key
        self.k = 'ghost.iter.%s.%s.%d' % (key[0], key[1], st.ghost.get('nloop', 0))
        st.ghost['nloop'] = st.ghost.get('nloop', 0) + 1
        r = Reg(self.k, self.k, 'cells')
        r.cells[0] = (8, z3.BitVecVal(0, 64))
        r.meta = {}
        st.regs[self.k] = r
        self.nlog = len(st.log)

    def havoc(self, eng, st, sh):
        sh.log.append(('loop', self.k))
        self.pc0 = len(sh.pc)
        return self.w.loop_havoc(eng, st, sh, self)

    def settle(self, eng, st, sh, phis, backs, holds): pass

    def back(self, eng, s, collect):
        k = s.regs[self.k].cells[0][1]
        if not collect: self.w.loop_body(eng, s, self, s.log[self.nlog + 1:], k)
        s.wr(self.k).cells[0] = (8, simp(bv(k, 64) + 1))


class PassWorld(AstWorld):
    """a compiler pass: dispatch(child) is logged"""
    extra = ()

    def __init__(self, T, visitor, tree=None):
        AstWorld.__init__(self, T, tree)
        self.visitor = visitor
        self.VT = AstWorld.VT + (visitor,)
        self.contracts = list(self.extra) + [(re.compile(r'^nano::ast_visitor_t::dispatch\('), self.c_dispatch)]
        self.loopvec = {}

    def cut_hook(self, eng, st, key, phis): return WLoop(self, eng, st, key) if key in eng.event_loops else None

    def loop_havoc(self, eng, st, sh, loop): return ()

    def make(self, eng, cls):
        st = State()
        self.V = self.new(eng, st, 'this', self.visitor)
        self.n = self.new(eng, st, 'n', cls)
        self.N = self.new(eng, st, 'nano', 'nano_t')
        self.links[self.visitor, 'nano_'] = self.N
        self.links['nano_t', 'ast_'] = lambda e, s, r: self.new(e, s, 'ast', 'ast_t')
        self.links['nano_t', 'errors_'] = lambda e, s, r: self.new(e, s, 'errors', 'error_manager_t')
        self.mkstack(eng, st)
        return st

    def mkstack(self, eng, st, parent=None):
        """visitor stack: arbitrary ancestors, the visited node on top"""
        s = Reg('vstack', 'vstack', 'seq')
        s.es, s.n = 8, z3.BitVec('vstack.n', 64)
        setup_seq(eng, s, 'vstack', NP)

        def wrap(e, q, v, p):
            if isinstance(v, Ptr): return v
            back = self.terms.get(z3.simplify(v).sexpr())
            if back is not None: return back
            if must(e, bv(p.idx, 64) == self.vs0 - 1): return self.n
            return self.stack_elem(e, q, v, p)
        s.meta = dict(s.meta, unwrap=self.unwrap, wrap=wrap)
        st.regs['vstack'] = s
        self.vs0 = s.n
        eng.assume(st, z3.UGE(s.n, 1))
        eng.bound(st, s.n, 1 << 20)
        st.regs[self.V.r].objs[self.off('ast_visitor_t', 'stack')] = Vec('vstack', NP)

    def stack_elem(self, eng, st, v, p): return self.new(eng, st, 'anc:' + z3.simplify(v).sexpr().replace('\n', ''), NODES, term=v, role='ancestor')

    def c_dispatch(self, eng, st, a, ins):
        """dispatch(child): visits that child (nothing for null)"""
        eng.prove(st, isinstance(a[0], RP) and a[0].r == self.V.r, 'dispatches on itself')
        p = a[1]
        if isinstance(p, Null): return None

        def go(s):
            q = p.p if isinstance(p, MaybeP) else p
            if not isinstance(q, RP): raise Undecided('dispatch of %r' % q)
            s.log.append(('dispatch', q.r))
            self.after_child(eng, s, q)
            return None
        if isinstance(p, MaybeP): return [Alt(p.c, go), Alt(z3.Not(p.c), lambda s: None)]
        return go(st)

    def after_child(self, eng, s, q): pass

    def loop_body(self, eng, s, loop, ev, k):
        if len(ev) != 1 or ev[0][0] != 'dispatch':
            eng.prove(s, False, 'every element is visited once')
            return
        el = s.regs[ev[0][1]].meta.get('elem')
        eng.prove(s, el is not None and bv(el[1], 64) == bv(k, 64), 'elements are visited in order')
        if el is not None: self.loopvec[loop.k] = el[0]


# the children of each kind of node
KIDS = {'ast_exp_array_init_t': ['*expr'], 'ast_exp_deref_t': ['lhs', 'index'], 'ast_stmt_call_t': ['expr'], 'ast_exp_call_t': ['*args', 'callee'],
        'ast_exp_bin_op_t': ['left', 'right'], 'ast_exp_unary_op_t': ['child'], 'ast_stmt_if_t': ['expr', 'then_block', 'else_block'],
        'ast_stmt_while_t': ['expr', 'body'], 'ast_stmt_for_t': ['start', 'end', 'body'], 'ast_stmt_return_t': ['expr'],
        'ast_stmt_assign_var_t': ['expr'], 'ast_stmt_assign_array_t': ['index', 'expr'], 'ast_stmt_assign_member_t': ['expr'],
        BLK: ['*nodes'], FUN: ['*args', 'body'], VAR: ['expr'], 'ast_program_t': ['*children'],
        'ast_exp_ident_t': [], 'ast_exp_member_t': [], 'ast_exp_lit_var_t': [], 'ast_exp_lit_str_t': [], 'ast_exp_lit_float_t': [], 'ast_exp_none_t': []}
VT_OF = {(FUN, 'args'): 'nano::ast_decl_var_t*'}


def visited_once(w, eng, s, cls, log, name):
    """every child of n is dispatched exactly once"""
    seen = [x for x in log if x[0] in ('dispatch', 'loop')]
    got = []
    for x in seen:
        if x[0] == 'dispatch': got.append(x[1])
        else:
            v = w.loopvec.get(x[1])
            k = bv(s.regs[x[1]].cells[0][1], 64)
            if v is None: eng.prove(s, k == 0, name + ': loop without body')
            else:
                eng.prove(s, k == bv(s.regs[v].n, 64), name + ': every element is visited')
                got.append('*' + v)
    for f in KIDS[cls]:
        if f[0] == '*':
            v = the_obj(eng, s, RP('n', 0, w.off(cls, f[1:])), 'vector', VT_OF.get((cls, f[1:]), NP)).seq
            c = got.count('*' + v)
            if c == 0: eng.prove(s, bv(s.regs[v].n, 64) == 0, name + ': visits %s' % f[1:])
            else: eng.prove(s, c == 1, name + ': visits %s once' % f[1:])
            got = [g for g in got if g != '*' + v]
        else:
            q = eng.load(s, RP('n', 0, w.off(cls, f)), PTR)
            r = (q.p if isinstance(q, MaybeP) else q).r
            c = got.count(r)
            if c == 0: eng.prove(s, z3.Not(q.c) if isinstance(q, MaybeP) else False, name + ': visits %s' % f)
            else: eng.prove(s, c == 1, name + ': visits %s once' % f)
            got = [g for g in got if g != r]
    eng.prove(s, not got, name + ': visits nothing else')


def t_walk(cls, visitor='ast_visitor_t'):
    short = re.sub('^ast_(exp_|stmt_)?|_t$', '', cls)

    def body(T, setup):
        w = PassWorld(T, visitor)
        eng = setup(w.engine())
        st = w.make(eng, cls)
        eng.canary = False

        def end(s, k, v):
            if k != 'ret':
                eng.prove(s, False, short + ': does not throw')
                return
            eng.canary = True
            visited_once(w, eng, s, cls, s.log, short)
        eng.on_end = end
        eng.start(st, find1(T, r'^nano::%s::visit\(nano::%s\*\)' % (visitor, cls)), [w.V, w.n])
        eng.explore(st)
        return eng
    return Task('walk:%s' % short, body, info={'native': 'full'})


def t_dispatch(visitor):
    def body(T, setup):
        w = PassWorld(T, visitor)

        def c_visit(eng, st, a, ins):
            """visit(X*): the pass's own function, under contract elsewhere; leaves the visitor stack as it is"""
            nm = eng.m.dem(w.callee(eng, st, ins))
            cls = re.search(r'::visit\(nano::(\w+)\*\)', nm).group(1)
            eng.prove(st, isinstance(a[1], RP) and a[1].r == 'n', 'visits the node itself')
            eng.prove(st, isinstance(a[0], RP) and a[0].r == 'this', 'on the same visitor')
            if cls in TYPE_OF: eng.prove(st, w.type_term('n') == w.E[TYPE_OF[cls]], 'dispatch: reaches the function of the kind of node')
            else: eng.prove(st, False, 'dispatch: known kind of node')
            s = st.regs['vstack']
            eng.prove(st, bv(s.n, 64) == w.vs0 + 1, 'dispatch: the node is pushed')
            top = s.f[0, 8].read(w.vs0)
            eng.prove(st, not isinstance(top, Ptr) and top.eq(z3.BitVec('&n', 64)), 'dispatch: the node is on top of the stack while visited')
            st.log.append(('visit', nm))
            return None
        w.contracts = [(re.compile(r'^nano::\w+::visit\(nano::'), c_visit)]
        eng = setup(w.engine())
        st = w.make(eng, NODES)
        eng.load(st, RP('n', 0, w.off('ast_node_t', 'type')), INT(32))
        fs = T.mod.find(r'^nano::ast_visitor_t::dispatch\(')
        eng.canary = False

        def end(s, k, v):
            if k != 'ret':
                eng.prove(s, False, 'dispatch: does not throw')
                return
            eng.canary = True
            eng.prove(s, len([x for x in s.log if x[0] == 'visit']) == 1, 'dispatch: exactly one visit')
            vs = s.regs['vstack']
            eng.prove(s, bv(vs.n, 64) == w.vs0, 'dispatch: the stack is as before')
            i = z3.BitVec('any', 64)
            eng.prove(s, z3.Implies(z3.ULT(i, w.vs0), vs.f[0, 8].read(i) == z3.Function('vstack.f0_8', B64, B64)(i)), 'dispatch: ancestors are kept')
        eng.on_end = end
        eng.start(st, find1(T, r'^nano::ast_visitor_t::dispatch\('), [w.V, w.n])
        eng.explore(st)
        return eng
    return Task('dispatch:' + visitor, body, info={'native': 'full'})


def t_dispatch_null():
    def body(T, setup):
        w = PassWorld(T, 'ast_visitor_t')
        w.contracts = []
        eng = setup(w.engine())
        st = w.make(eng, NODES)
        eng.canary = False

        def end(s, k, v):
            eng.canary = True
            eng.prove(s, k == 'ret' and not s.log and must(eng, bv(s.regs['vstack'].n, 64) == w.vs0), 'dispatch: nothing for an absent child')
        eng.on_end = end
        eng.start(st, find1(T, r'^nano::ast_visitor_t::dispatch\('), [w.V, NULL])
        eng.explore(st)
        return eng
    return Task('dispatch:null', body, info={'native': 'full'})


def walk_tasks(visitors):
    """every pass reaches every node: dispatch of these visitors and the inherited traversal"""
    return [t_walk(c) for c in KIDS] + [t_dispatch(v) for v in visitors] + [t_dispatch_null()]
