"""Garbage collector: arena allocator, trace, collect, gc_collect against contracts (property C08)."""
import re
import z3
from .sx import *
from .sx import Fun, Fun2
from .world import *
from .world import B64, B32, NULL
from .ir import INT, PTR
from .task import Task
from .vmtasks import find1

K0, Q0, M0, J0 = (z3.BitVec('sk.' + n, 64) for n in ('k', 'q', 'm', 'j'))
A0, A1, A2, X0 = (z3.BitVec('sk.' + n, 64) for n in ('A0', 'A1', 'A2', 'X'))


class Snap:
    """a state of the collector: heap, forwarding map, allocated objects"""

    def __init__(self, st):
        self.h = dict(st.heap)
        self.dom, self.val, self.alloc = st.ghost['dom'], st.ghost['val'], st.ghost['alloc']

    def t(self, b): return self.h['t'].read(b)
    def v(self, b): return self.h['v'].read(b)
    def size(self, b): return bv(self.h['size'].read(b), 64)
    def p8(self, b, i): return self.h['p8'].read(b, i)
    def p64(self, b, i): return self.h['p64'].read(b, i)
    def fwd(self, a): return self.dom.read(a)
    def to(self, a): return self.val.read(a)
    def al(self, a): return self.alloc.read(a)


class GcWorld(World):
    def engine(self, **kw):
        e = World.engine(self, **kw)
        e.cut_loops = True
        C = lambda rx, f: (re.compile(rx), f)
        UM = r'^std::(unordered_)?map<nano::value_t const\*, nano::value_t\*.*>::'
        NI = r'^(bool )?std::(__detail::_Node_(const_)?iterator(_base)?|_Rb_tree_(const_)?iterator)<.*>'
        e.contracts = [C(r'^nano::arena_t::owns\(', self.c_owns),
                       C(r'^nano::value_gc_t::trace\(', self.c_trace),
                       C(UM + r'find\(', self.m_find), C(UM + r'c?end\(', self.m_end), C(UM + r'count\(', self.m_count),
                       C(UM + r'(operator\[\]|at)\(', self.m_index), C(UM + r'clear\(', self.m_clear),
                       C(r'^(bool )?std::(__detail::)?operator(==|!=)\(std::(__detail::_Node|_Rb_tree)', self.i_cmp),
                       C(NI + r'::operator(->|\*)\(\) const', self.i_deref)] + e.contracts
        e.cut_hook = self.cut_hook
        return e

    def make(self, eng, nm=''):
        st = World.make(self, eng, nm)
        self.OLD = st.heap['OLD']
        self.INTO = z3.Function('gc.into', B64, z3.BoolSort())
        DOM0, VAL0, COLL = z3.Function('fwd.dom', B64, z3.BoolSort()), z3.Function('fwd.val', B64, B64), z3.Function('gc.moved', B64, z3.BoolSort())
        OLD = self.OLD
        Z = z3.BitVecVal(0, 64)
        eng.assume(st, z3.And(z3.Not(COLL(Z)), z3.Not(OLD(Z)), z3.Not(DOM0(Z))))
        st.ghost['dom'] = Fun(lambda a: DOM0(a))
        st.ghost['val'] = Fun(lambda a: VAL0(a))
        st.ghost['alloc'] = Fun(lambda a: z3.Or(OLD(a), COLL(a)))
        st.ghost['refs'] = ()
        self.COLL = COLL
        st.heap['ptr'] = lambda eng, st, t: None
        self.flip = z3.BitVec('gc.flip', 32)
        G = st.wr(self.G)
        G.cells[self.offs('value_gc_t', 'flipflop_')] = (4, self.flip)
        self.s0 = Snap(st)
        return st

    # ---- addresses of the two arenas
    def arena(self, eng, st, p):
        """-> 'to' / 'from' for an arena pointer"""
        if not (isinstance(p, RP) and p.r == self.G): raise Undecided('arena %r' % (p,))
        o, sz = self.offs('value_gc_t', 'space_'), self.t.sizes['arena_t']
        fl = bv(st.regs[self.G].cells[self.offs('value_gc_t', 'flipflop_')][1], 32)
        to = z3.ZeroExt(32, (fl & 1) ^ 1) * sz + o
        off = bv(p.off, 64)
        if not eng.feasible(off != to): return 'to'
        if not eng.feasible(off != 2 * o + sz - to): return 'from'
        raise Undecided('arena pointer is neither space')

    def into(self, b): return z3.And(b != 0, z3.Or(z3.Not(self.OLD(b)), self.INTO(b)))
    def infrom(self, b): return z3.And(self.OLD(b), z3.Not(self.INTO(b)))

    def c_owns(self, eng, st, a, ins):
        """arena_t::owns: the address lies in that arena (its own task proves it)"""
        b = eng.hbase(a[1])
        eng.prove(st, z3.Or(b == 0, Snap(st).al(b)), 'requires of owns: a value')
        return self.into(b) if self.arena(eng, st, a[0]) == 'to' else self.infrom(b)

    def c_alloc(self, eng, st, a, ins):
        eng.prove(st, self.arena(eng, st, a[0]) == 'to', 'survivors are moved into the space that is kept')
        extra = bv(a[1], 64)
        eng.prove(st, extra >= 0, 'requires of alloc: size is not negative')
        eng.assume(st, z3.ULT(extra, self.ROOM * 512))
        eng.trusted.add('the value heap is not exhausted (allocation succeeds)')
        s = Snap(st)
        b = alloc_obj(eng, st, simp(extra + 8))
        eng.assume(st, z3.Not(s.al(b)))
        st.ghost['alloc'] = st.ghost['alloc'].write(b, z3.BoolVal(True))
        return HP(b)

    # ---- forwarding map
    def sync(self, st):
        for k, rid in st.ghost['refs']:
            v = st.regs[rid].cells[0][1]
            st.ghost['val'] = st.ghost['val'].write(k, self.eng.hbase(v) if isinstance(v, Ptr) else v)

    def key(self, eng, st, p): return eng.hbase(eng.load(st, p, PTR))

    def is_fwd(self, p): return isinstance(p, RP) and p.r == self.G and p.off == self.offs('value_gc_t', 'forward_')

    def lookup(self, eng, st, m, k):
        if not self.is_fwd(m): raise Undecided('another map')
        self.sync(st)
        inv = st.ghost.get('inv')
        if inv is not None: eng.assume(st, self.entry(inv, k))

    def m_find(self, eng, st, a, ins):
        k = self.key(eng, st, a[1])
        self.lookup(eng, st, a[0], k)
        s = Snap(st)

        def hit(x):
            r = eng.new_reg(x, '.str.fwdnode')
            r.cells[0], r.cells[8] = (8, HP(k)), (8, HP(z3.simplify(s.to(k))))
            return RP(r.id)
        return [Alt(s.fwd(k), hit), Alt(z3.Not(s.fwd(k)), lambda x: NULL)]

    def m_end(self, eng, st, a, ins): return NULL

    def m_count(self, eng, st, a, ins):
        k = self.key(eng, st, a[1])
        self.lookup(eng, st, a[0], k)
        return z3.If(Snap(st).fwd(k), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))

    def m_index(self, eng, st, a, ins):
        k = self.key(eng, st, a[1])
        self.lookup(eng, st, a[0], k)
        s = Snap(st)
        r = eng.new_reg(st, 'fwdref')
        r.cells[0] = (8, HP(z3.simplify(z3.If(s.fwd(k), s.to(k), z3.BitVecVal(0, 64)))))
        st.ghost['dom'] = st.ghost['dom'].write(k, z3.BoolVal(True))
        st.ghost['refs'] = st.ghost['refs'] + ((k, r.id),)
        return RP(r.id)

    def m_clear(self, eng, st, a, ins):
        if not self.is_fwd(a[0]): raise Undecided('another map')
        st.ghost['dom'], st.ghost['refs'] = Fun(lambda a: z3.BoolVal(False)), ()
        return None

    def itp(self, eng, st, p):
        return eng.load(st, p, PTR) if isinstance(p, RP) and not st.regs[p.r].name.startswith('.str.fwdnode') else p

    def i_cmp(self, eng, st, a, ins):
        x, y = (self.itp(eng, st, p) for p in a[:2])
        e = isinstance(x, Null) and isinstance(y, Null) or isinstance(x, RP) and isinstance(y, RP) and x.r == y.r
        return (not e) if 'operator!=' in eng.m.dem(eng.m.aliases.get(ins.a[1][1], ins.a[1][1])) else e

    def i_deref(self, eng, st, a, ins):
        v = self.itp(eng, st, a[0])
        eng.prove(st, isinstance(v, RP), 'the end iterator is not dereferenced')
        return v

    # ---- facts
    def entry(self, s, A):
        """every forwarded array has a copy in the kept space with the same header; an array already there stays"""
        y = s.to(A)
        return z3.Implies(s.fwd(A), z3.And(self.OLD(A), s.t(A) == self.E['val_type_array'], y != 0, s.al(y), z3.Implies(self.INTO(A), y == A),
                                           z3.Implies(z3.Not(self.INTO(A)), z3.Not(self.OLD(y))), s.t(y) == s.t(A), s.v(y) == s.v(A),
                                           s.size(y) == 8 + 8 * z3.SignExt(32, s.v(A))))

    def inj(self, s): return z3.Implies(z3.And(A1 != A2, s.fwd(A1), s.fwd(A2)), s.to(A1) != s.to(A2))

    def same_value(self, s, x, y):
        """y in the kept space stands for x"""
        E = self.E
        tx, ty, vx = s.t(x), s.t(y), s.v(x)
        sc = z3.And(y != 0, s.al(y), self.into(y), ty == tx, z3.UGE(s.size(y), 8),
                    z3.If(tx == E['val_type_float'], z3.fpBVToFP(s.v(y), F32) == z3.fpBVToFP(vx, F32), s.v(y) == vx),
                    z3.Implies(z3.And(tx == E['val_type_string'], z3.ULE(Q0, z3.SignExt(32, vx))),
                               z3.And(s.p8(y, Q0) == s.p8(x, Q0), s.size(y) == 9 + z3.SignExt(32, vx))))
        return z3.If(x == 0, y == 0, z3.If(tx == E['val_type_array'], z3.And(s.fwd(x), s.to(x) == y), sc))

    def refs_old(self, s, A, j):
        """elements of arrays not yet forwarded are values from before the collection"""
        x = s.p64(A, j)
        return z3.Implies(z3.And(self.OLD(A), s.t(A) == self.E['val_type_array'], z3.Or(z3.Not(self.INTO(A)), z3.Not(s.fwd(A))), z3.ULT(j, z3.SignExt(32, s.v(A)))),
                          z3.Or(x == 0, self.OLD(x)))

    def newt(self, s, pre): return z3.Implies(z3.And(s.fwd(A0), z3.Not(pre.fwd(A0)), z3.Not(self.INTO(A0))), z3.Not(pre.al(s.to(A0))))

    def closed(self, s, pre, A, j):
        """children of an array forwarded since pre are forwarded too, in place"""
        return z3.Implies(z3.And(s.fwd(A), z3.Not(pre.fwd(A)), z3.ULT(j, z3.SignExt(32, s.v(A)))), self.same_value(s, pre.p64(A, j), s.p64(s.to(A), j)))

    def facts(self, s, pre, Lpre, L, num, done, N):
        out = [('slot', z3.Implies(z3.And(z3.ULT(K0, num), done(K0)), self.same_value(s, Lpre(K0), L(K0)))),
               ('closure', self.closed(s, pre, A0, J0))]
        for A in (A0, A1, A2): out.append(('entry', self.entry(s, A)))
        out.append(('copies are new values', self.newt(s, pre)))
        out.append(('injective', self.inj(s)))
        out += self.frame(s, pre, done, N)
        return out

    def frame(self, s, pre, done, N):
        a = pre.al(X0)
        newto = z3.And(self.OLD(X0), self.INTO(X0), s.fwd(X0), z3.Not(pre.fwd(X0)))
        mine = z3.And(X0 == N, done(M0)) if N is not None else z3.BoolVal(False)
        return [('frame: headers of existing values are untouched', z3.Implies(a, z3.And(s.al(X0), s.t(X0) == pre.t(X0), s.v(X0) == pre.v(X0), s.size(X0) == pre.size(X0)))),
                ('frame: characters of existing values are untouched', z3.Implies(a, s.p8(X0, M0) == pre.p8(X0, M0))),
                ('frame: elements of other arrays are untouched', z3.Implies(z3.And(a, z3.Not(newto), z3.Not(mine)), s.p64(X0, M0) == pre.p64(X0, M0))),
                ('frame: forwarding never changes', z3.Implies(pre.fwd(X0), z3.And(s.fwd(X0), s.to(X0) == pre.to(X0))))]

    def havoc(self, eng, st, done, N, roots=None, L0=None):
        """an arbitrary later state that satisfies the frame (by definition) and in which slots `done` may have changed"""
        self.sync(st)
        st.ghost['refs'] = ()
        pre = Snap(st)
        eng.nfresh += 1
        g = 'g%d.' % eng.nfresh
        F = lambda n, *w: z3.Function(g + n, *w)
        ND, NV, NA = F('dom', B64, z3.BoolSort()), F('val', B64, B64), F('alloc', B64, z3.BoolSort())
        UT, UV, US, U8, U64 = F('t', B64, B32), F('v', B64, B32), F('size', B64, B64), F('p8', B64, B64, z3.BitVecSort(8)), F('p64', B64, B64, B64)
        OLD, INTO = self.OLD, self.INTO
        Z = z3.BitVecVal(0, 64)
        eng.assume(st, z3.And(z3.Not(ND(Z)), z3.Not(NA(Z))))
        st.ghost['dom'] = Fun(lambda a: z3.Or(pre.fwd(a), ND(a)))
        st.ghost['val'] = Fun(lambda a: z3.If(pre.fwd(a), pre.to(a), NV(a)))
        st.ghost['alloc'] = Fun(lambda a: z3.Or(pre.al(a), NA(a)))
        H = st.heap
        for k, u in (('t', UT), ('v', UV), ('size', US)):
            H[k] = Fun2(lambda b, i=0, f=pre.h[k], u=u: z3.If(pre.al(b), bv(f.read(b), u.range().size()), u(b)))
        H['p8'] = Fun2(lambda b, i: z3.If(pre.al(b), pre.p8(b, i), U8(b, bv(i, 64))))

        def p64(b, i):
            c = z3.Or(z3.Not(pre.al(b)), z3.And(OLD(b), INTO(b), ND(b), z3.Not(pre.fwd(b))))
            if N is not None: c = z3.Or(c, z3.And(b == N, done(bv(i, 64))))
            return z3.If(z3.simplify(c), U64(b, bv(i, 64)), pre.p64(b, i))
        H['p64'] = Fun2(p64)
        if roots is not None:
            UL = F('roots', B64, B64)
            r = st.wr(roots)
            f0 = r.f[0, 8]
            r.f[0, 8] = Fun(lambda i: z3.If(z3.simplify(done(bv(i, 64))), UL(bv(i, 64)), eng.hbase(f0.read(i)) if isinstance(f0.read(i), Ptr) else f0.read(i)))
        return pre

    # ---- contract of trace at a recursive call
    def c_trace(self, eng, st, a, ins):
        p, num = a[1], bv(a[2], 64)
        if not isinstance(p, HP): raise Undecided('trace over %r' % (p,))
        n = p.b
        self.sync(st)
        pre = Snap(st)
        for b in list(st.ghost.get('keep', [])) + [n]:
            for j in (J0, K0): eng.assume(st, self.refs_old(self.s0, b, j))
        eng.prove(st, z3.And(bv(p.off, 64) + bv(p.idx, 64) * p.sc == 8), 'requires of trace: the slots of an array')
        eng.prove(st, z3.And(n != 0, pre.al(n), pre.t(n) == self.E['val_type_array'], z3.ULE(num, z3.SignExt(32, pre.v(n))), pre.size(n) == 8 + 8 * z3.SignExt(32, pre.v(n))),
                  'requires of trace: the slots lie inside the array')
        eng.prove(st, z3.Or(z3.Not(self.OLD(n)), z3.And(self.INTO(n), pre.fwd(n))), 'requires of trace: the array has been moved or marked')
        e = pre.p64(n, K0)
        eng.prove(st, z3.Implies(z3.ULT(K0, num), z3.Or(e == 0, self.OLD(e))), 'requires of trace: every slot holds none or a value from before the collection')
        eng.prove(st, self.refs_old(pre, A0, J0), 'requires of trace: unvisited arrays hold values from before the collection')
        for A in (A0, A1): eng.prove(st, self.entry(pre, A), 'requires of trace: forwarding entries are sound')
        eng.prove(st, self.inj(pre), 'requires of trace: distinct arrays stay distinct')
        eng.prove(st, z3.Or([z3.And(self.OLD(b), pre.fwd(b), z3.Not(self.s0.fwd(b))) for b in st.ghost.get('keep', [])] or [False]), 'terminates: an array is marked before its elements are visited')
        done = lambda k: z3.ULT(k, num)
        self.havoc(eng, st, done, n)
        s = Snap(st)
        for k in (J0, K0): eng.assume(st, z3.Implies(z3.ULT(k, num), self.same_value(s, pre.p64(n, k), s.p64(n, k))))
        eng.assume(st, self.closed(s, pre, A0, J0))
        eng.assume(st, self.newt(s, pre))
        for A in (A0, A1, A2): eng.assume(st, self.entry(s, A))
        eng.assume(st, self.inj(s))
        st.ghost['inv'] = s
        return None

    # ---- loop over the slots
    def cut_hook(self, eng, st, key, phis):
        if not hasattr(self, 'L0'): return None
        w = self
        prog = None
        for nm, ty, v in phis:
            if is_c(v) and v == 0 and ty.k == 'int': prog = (nm, lambda x, k, ww=ty.w: z3.ULT(k, z3.ZeroExt(64 - ww, bv(x, ww)) if ww < 64 else bv(x, 64)))
            elif isinstance(v, RP) and w.roots is not None and v.r == w.roots: prog = (nm, lambda x, k: z3.ULT(k, bv(x.idx, 64)))
            elif isinstance(v, HP) and w.N is not None and v.b is w.N: prog = (nm, lambda x, k: z3.ULT(k, bv(eng.hidx(x, 8), 64)))
            if prog: break
        if not prog:
            for nm, ty, v in phis:
                if ty.k == 'int' and ty.w == 64 and z3.is_expr(v) and v.eq(w.num): prog = (nm, lambda x, k: z3.UGE(k, bv(x, 64)))
        if not prog: raise Undecided('no progress variable')

        class Hook:
            def havoc(self, eng, st, sh):
                x = sh.frames[-1].env[prog[0]]
                w.havoc(eng, sh, lambda k: z3.And(z3.ULT(k, w.num), prog[1](x, k)), w.N, w.roots)
                sh.ghost['inv'] = Snap(sh)
                return ('heap', w.roots)

            def facts(self, s, pv):
                w.sync(s)
                x = pv[prog[0]]
                return w.facts(Snap(s), w.s0, w.L0, lambda k: w.cur(s, k), w.num, lambda k: z3.And(z3.ULT(k, w.num), prog[1](x, k)), w.N)

            def bound(self, pv): return z3.Not(prog[1](pv[prog[0]], w.num))

            def settle(self, eng, st, sh, ph, backs, holds):
                # the position never passes the end (needed when the loop compares for inequality)
                b = self.bound({k: v[0] for k, v in ph.items()})
                if holds([], self.bound({k: v[1] for k, v in ph.items()})) and all(holds(pc + [b], self.bound(pv)) for s1, pv, pc in backs): sh.pc = sh.pc + [b]
                else: b = z3.BoolVal(True)
                for n, f in self.facts(st, {k: v[1] for k, v in ph.items()}): eng.prove(st, f, 'loop entry: ' + n)
                hyp = [f for _, f in self.facts(sh, {k: v[0] for k, v in ph.items()})]
                for s1, pv, pc in backs:
                    eng.solver.push()
                    eng.solver.add(b, *hyp)
                    eng.solver.add(*pc)
                    for n, f in self.facts(s1, pv): eng.prove(s1, f, 'loop: ' + n)
                    eng.solver.pop()
                sh.pc = sh.pc + hyp
        return Hook()

    def cur(self, s, k):
        if self.N is not None: return s.heap['p64'].read(self.N, k)
        v = s.regs[self.roots].f[0, 8].read(k)
        return self.eng.hbase(v) if isinstance(v, Ptr) else v


def t_trace(heap):
    def body(T, setup):
        w = GcWorld(T)
        eng = setup(w.engine())
        st = w.make(eng)
        E = w.E
        s0 = w.s0
        if heap:
            w.N, w.roots = z3.BitVec('list.array', 64), None
            N = w.N
            st.heap['touch'](eng, st, N)
            w.num = z3.BitVec('list.num', 64)
            eng.assume(st, z3.And(N != 0, s0.al(N), z3.Or(z3.Not(w.OLD(N)), z3.And(w.INTO(N), s0.fwd(N))), s0.t(N) == E['val_type_array'],
                                  s0.v(N) > 0, s0.v(N) < (1 << 24), z3.ULE(w.num, z3.SignExt(32, s0.v(N))), s0.size(N) == 8 + 8 * z3.SignExt(32, s0.v(N))))
            w.L0 = lambda k: s0.p64(N, k)
            lst = HP(N, 8)
        else:
            w.N, w.roots = None, w.stk
            f = eng.seq_field(st, st.regs[w.stk], 0, 8, PTR)
            st.wr(w.stk).f[0, 8] = f
            w.num = z3.BitVec('list.num', 64)
            eng.assume(st, z3.ULE(w.num, bv(w.n0, 64)))
            w.L0 = lambda k: (lambda v: eng.hbase(v) if isinstance(v, Ptr) else v)(f.read(k))
            lst = RP(w.stk, 0, 0)
        # precondition: slots and unvisited arrays hold old values; the forwarding map is sound
        st.quant = [lambda i: z3.Implies(z3.ULT(bv(i, 64), w.num), z3.Or(w.L0(bv(i, 64)) == 0, w.OLD(w.L0(bv(i, 64)))))]
        eng.inst(st, K0)
        eng.assume(st, w.refs_old(s0, A0, J0))
        for A in (A0, A1, A2):
            st.heap['touch'](eng, st, A)
            eng.assume(st, w.entry(s0, A))
        st.heap['touch'](eng, st, X0)
        st.ghost['keep'] = []
        eng.assume(st, w.inj(s0))
        st.ghost['inv'] = s0
        w.st0 = st.fork()
        eng.canary = False

        def end(s, k, v):
            if k != 'ret':
                eng.prove(s, False, 'trace throws')
                return
            if not eng.canary and eng.check() == z3.sat: eng.canary = True
            w.sync(s)
            for n, f in w.facts(Snap(s), s0, w.L0, lambda k: w.cur(s, k), w.num, lambda k: z3.ULT(k, w.num), w.N): eng.prove(s, f, 'ensures: ' + n)
            if not heap: eng.prove(s, z3.Implies(z3.UGE(M0, w.num), w.cur(s, M0) == w.L0(M0)), 'ensures: slots beyond the count are untouched')
            fl = bv(s.regs[w.G].cells[w.offs('value_gc_t', 'flipflop_')][1], 32)
            eng.prove(s, fl == w.flip, 'ensures: the spaces are not exchanged while tracing')
        eng.on_end = end
        eng.start(st, find1(T, r'^nano::value_gc_t::trace\('), [RP(w.G), lst, w.num])
        eng.run(st)
    return Task('value_gc_t::trace[%s]' % ('array' if heap else 'roots'), body, group='gc', info={'native': 'graph'})


# ------------------------------------------------------------------ arena
CAP = 1024 * 1024


class ArenaWorld(World):
    """a single arena_t; its buffer has an arbitrary address"""

    def make(self, eng, nm=''):
        st = World.make(self, eng, nm)
        A = eng.new_reg(st, 'arena')
        self.A = A.id
        o = lambda f: self.offs('arena_t', f)
        self.head, self.base = z3.BitVec('arena.head', 64), z3.BitVec('arena.base', 64)
        A.cells[o('head_')] = (8, self.head)
        A.cells[o('start_')] = (8, Opq(self.base))
        A.cells[o('end_')] = (8, Opq(self.base + CAP))
        eng.assume(st, z3.And(z3.ULE(self.head, CAP), self.base != 0, z3.ULT(self.base, 1 << 62)))
        return st

    def engine(self, **kw):
        e = World.engine(self, **kw)
        e.contracts = e.contracts[1:]
        return e

    def cellv(self, s, f): return s.regs[self.A].cells[self.offs('arena_t', f)][1]


def simple(name, rx, args, post, world, native, pre=None):
    def body(T, setup):
        w = world(T)
        eng = setup(w.engine())
        st = w.make(eng)
        if pre: pre(w, eng, st)
        w.st0 = st.fork()
        eng.canary = False

        def end(s, k, v):
            if k != 'ret':
                eng.prove(s, False, name + ' throws')
                return
            if not eng.canary and eng.check() == z3.sat: eng.canary = True
            post(w, eng, s, v)
        eng.on_end = end
        eng.start(st, find1(T, rx), args(w))
        eng.run(st)
    return Task(name, body, group='gc', info={'native': native})


def t_alloc():
    ex = z3.BitVec('arg.extra', 64)

    def post(w, eng, s, v):
        need = w.head + 8 + ex
        h = bv(w.cellv(s, 'head_'), 64)
        fits = z3.ULT(need, CAP)
        if isinstance(v, Null):
            eng.prove(s, z3.Not(fits), 'an allocation that fits succeeds')
            eng.prove(s, h == w.head, 'a failed allocation reserves nothing')
            return
        eng.prove(s, z3.ULE(need, CAP), 'an allocation that does not fit is refused')
        ok = isinstance(v, RP) and v.r == w.A
        eng.prove(s, ok, 'the block lies in the arena')
        if ok: eng.prove(s, bv(v.off, 64) == w.head + w.offs('arena_t', 'data_'), 'the block starts behind all earlier blocks')
        eng.prove(s, z3.And(z3.UGE(h, need), z3.ULE(h, CAP)), 'the block is reserved in full')

    return simple('arena_t::alloc', r'^nano::value_t\* nano::arena_t::alloc<nano::value_t>\(', lambda w: [RP(w.A), ex], post, ArenaWorld, 'alloc',
                  lambda w, eng, st: eng.assume(st, z3.ULT(ex, 1 << 40)))


def t_owns():
    p = z3.BitVec('arg.p', 64)
    return simple('arena_t::owns', r'^nano::arena_t::owns\(', lambda w: [RP(w.A), Opq(p)],
                  lambda w, eng, s, v: eng.prove(s, tobool(v) == z3.And(z3.UGE(p, w.base), z3.ULT(p, w.base + CAP)), 'owns exactly the addresses of its buffer'), ArenaWorld, 'graph')


def t_clear():
    return simple('arena_t::clear', r'^nano::arena_t::clear\(', lambda w: [RP(w.A)],
                  lambda w, eng, s, v: eng.prove(s, bv(w.cellv(s, 'head_'), 64) == 0, 'a cleared arena is empty'), ArenaWorld, 'alloc')


def t_ctor():
    def post(w, eng, s, v):
        d = w.offs('arena_t', 'data_')
        eng.prove(s, bv(w.cellv(s, 'head_'), 64) == 0, 'a new arena is empty')
        a, b = w.cellv(s, 'start_'), w.cellv(s, 'end_')
        eng.prove(s, isinstance(a, RP) and a.r == w.A and a.off == d, 'the arena starts at its buffer')
        eng.prove(s, isinstance(b, RP) and b.r == w.A and b.off == d + CAP, 'the arena ends behind its buffer')
    return simple('arena_t::arena_t', r'^nano::arena_t::arena_t\(\)', lambda w: [RP(w.A)], post, ArenaWorld, 'alloc')


# ------------------------------------------------------------------ collector state
class StateWorld(GcWorld):
    """the collector object itself: which space is which, what each holds"""

    def make(self, eng, nm=''):
        st = GcWorld.make(self, eng, nm)
        eng.assume(st, z3.ULE(self.flip, 1))
        self.heads = [z3.BitVec('gc.head%d' % k, 64) for k in (0, 1)]
        G = st.wr(self.G)
        for k in (0, 1):
            G.cells[self.hoff(k)] = (8, self.heads[k])
            eng.assume(st, z3.ULE(self.heads[k], CAP))
        return st

    def hoff(self, k): return self.offs('value_gc_t', 'space_') + k * self.t.sizes['arena_t'] + self.offs('arena_t', 'head_')
    def hd(self, s, k): return bv(s.regs[self.G].cells[self.hoff(k)][1], 64)
    def fl(self, s): return bv(s.regs[self.G].cells[self.offs('value_gc_t', 'flipflop_')][1], 32)

    def engine(self, **kw):
        e = GcWorld.engine(self, **kw)
        e.cut_hook = None
        e.contracts = [c for c in e.contracts if c[1] != self.c_trace]
        e.contracts.insert(0, (re.compile(r'^nano::arena_t::clear\(\)'), self.c_clear))
        return e

    def c_clear(self, eng, st, a, ins):
        if not (isinstance(a[0], RP) and a[0].r == self.G): raise Undecided('clear of another arena')
        off = bv(a[0].off, 64)
        o, sz = self.offs('value_gc_t', 'space_'), self.t.sizes['arena_t']
        eng.prove(st, z3.Or(off == o, off == o + sz), 'clear is applied to one of the two spaces')
        for k in (0, 1): st.wr(self.G).cells[self.hoff(k)] = (8, simp(z3.If(off == o + k * sz, z3.BitVecVal(0, 64), self.hd(st, k))))
        return None


def t_collect():
    def post(w, eng, s, v):
        kept0 = z3.If((w.flip & 1) == 0, w.heads[1], w.heads[0])     # space the survivors were moved to
        f1 = w.fl(s) & 1
        to1 = z3.If(f1 == 0, w.hd(s, 1), w.hd(s, 0))
        frm1 = z3.If(f1 == 0, w.hd(s, 0), w.hd(s, 1))
        eng.prove(s, f1 != (w.flip & 1), 'collect exchanges the spaces')
        eng.prove(s, to1 == 0, 'after a collection new values are placed in an empty space')
        eng.prove(s, frm1 == kept0, 'a collection keeps the space holding the survivors')
        w.sync(s)
        eng.prove(s, z3.Not(Snap(s).fwd(A0)), 'a collection forgets the forwarding of the previous one')
    return simple('value_gc_t::collect', r'^nano::value_gc_t::collect\(\)', lambda w: [RP(w.G)], post, StateWorld, ('graph', 'pressure'))


def t_reset():
    def post(w, eng, s, v):
        eng.prove(s, z3.And(w.hd(s, 0) == 0, w.hd(s, 1) == 0), 'after a reset the heap is empty')
        eng.prove(s, z3.Not(Snap(s).fwd(A0)), 'after a reset nothing is forwarded')
    return simple('value_gc_t::reset', r'^nano::value_gc_t::reset\(\)', lambda w: [RP(w.G)], post, StateWorld, 'pressure')


def t_should():
    def post(w, eng, s, v):
        to = z3.If((w.flip & 1) == 0, w.heads[1], w.heads[0])
        # (the code counts in whole percent: between 75 and 76 percent either answer is accepted)
        eng.prove(s, z3.Implies(tobool(v), z3.UGT(to * 4, z3.BitVecVal(3 * CAP, 64))), 'a collection is due only when more than three quarters of the allocation space are used')
        eng.prove(s, z3.Implies(z3.UGE(to * 100, z3.BitVecVal(76 * CAP, 64)), tobool(v)), 'a collection is due when more than three quarters of the allocation space are used')
    return simple('value_gc_t::should_collect', r'^nano::value_gc_t::should_collect\(\) const', lambda w: [RP(w.G)], post, StateWorld, 'due')


# ------------------------------------------------------------------ constructors
def t_new(rx, name, arg, t, val, size=None):
    def post(w, eng, s, v):
        ok = isinstance(v, HP)
        eng.prove(s, ok, name + ' returns a value')
        if not ok: return
        s1 = Snap(s)
        b = v.b
        eng.prove(s, z3.And(b != 0, z3.Not(w.s0.al(b)), w.into(b)), name + ' returns a new value in the allocation space')
        eng.prove(s, s1.t(b) == w.E[t], name + ' gives the value its type')
        val(w, eng, s, s1, b)
        for n, f in w.frame(s1, w.s0, lambda k: z3.BoolVal(False), None): eng.prove(s, f, name + ' ' + n)
    pre = arg[1] if len(arg) > 1 else None

    class W(GcWorld):
        def engine(self, **kw):
            e = GcWorld.engine(self, **kw)
            e.cut_loops, e.cut_hook = False, None
            return e

        def make(self, eng, nm=''):
            st = GcWorld.make(self, eng, nm)
            st.heap['touch'](eng, st, X0)
            return st
    return simple('value_gc_t::' + name, rx, lambda w: [RP(w.G)] + arg[0](w), post, W, ('alloc',), pre)


def news():
    x, f = z3.BitVec('arg.x', 32), z3.BitVec('arg.f', 32)
    fp = z3.fpBVToFP(f, F32)
    iv = lambda w, eng, s, s1, b: eng.prove(s, s1.v(b) == x, 'the value is the one given')
    out = [t_new(r'^nano::value_gc_t::new_int\(', 'new_int', (lambda w: [x],), 'val_type_int', iv),
           t_new(r'^nano::value_gc_t::new_func\(', 'new_func', (lambda w: [x],), 'val_type_func', iv),
           t_new(r'^nano::value_gc_t::new_syscall\(', 'new_syscall', (lambda w: [x],), 'val_type_syscall', iv),
           t_new(r'^nano::value_gc_t::new_float\(', 'new_float', (lambda w: [fp],), 'val_type_float',
                 lambda w, eng, s, s1, b: eng.prove(s, z3.fpBVToFP(s1.v(b), F32) == fp, 'the value is the one given'))]

    def arr(w, eng, s, s1, b):
        eng.prove(s, s1.v(b) == x, 'the array has the requested length')
        eng.prove(s, s1.size(b) == 8 + 8 * z3.SignExt(32, x), 'the array has room for its elements')
        eng.prove(s, z3.Implies(z3.ULT(M0, z3.SignExt(32, x)), s1.p64(b, M0) == 0), 'every element of a new array is none')
    out.append(t_new(r'^nano::value_gc_t::new_array\(', 'new_array', (lambda w: [x], lambda w, eng, st: eng.assume(st, z3.And(x > 0, x < (1 << 24)))), 'val_type_array', arr))

    def st_(w, eng, s, s1, b):
        eng.prove(s, s1.v(b) == x, 'the string has the requested length')
        eng.prove(s, z3.UGE(s1.size(b), 9 + z3.SignExt(32, x)), 'the string has room for its characters and terminator')
    out.append(t_new(r'^nano::value_gc_t::new_string\(int\)', 'new_string(length)', (lambda w: [x], lambda w, eng, st: eng.assume(st, z3.And(x >= 0, x < (1 << 24)))), 'val_type_string', st_))
    return out


# ------------------------------------------------------------------ roots
def t_roots():
    from .runtasks import VmWorld, gset, g
    TR = (212, 4)
    HEAD = z3.Function('thread.stack.n', B64, B32)

    class W(VmWorld):
        def engine(self, **kw):
            e = VmWorld.engine(self, **kw)
            C = lambda rx, f: (re.compile(rx), f)
            e.contracts = [C(r'^nano::value_gc_t::trace\(', self.c_tr), C(r'^nano::value_gc_t::collect\(', self.c_col),
                           C(r'^nano::value_stack_t::data\(', self.s_data), C(r'^nano::value_stack_t::head\(', self.s_head)] + \
                [c for c in e.contracts if c[1] != self.c_gc]
            return e

        def make(self, eng, nm=''):
            st = VmWorld.make(self, eng, nm)
            st.wr(self.threads).f[TR] = Fun(lambda i: z3.BitVecVal(0, 32))
            D = eng.new_seq(st, 'stackdata', 8, z3.BitVec('threads.n', 64))
            self.data = D.id
            st.quant.append(lambda i: z3.ULT(HEAD(bv(i, 64)), 1 << 30))
            return st

        def thr(self, p):
            if not (isinstance(p, RP) and p.r == self.threads): raise Undecided('value stack %r' % (p,))
            return p.idx

        def s_data(self, eng, st, a, ins): return RP(self.data, self.thr(a[0]), 0)
        def s_head(self, eng, st, a, ins):
            eng.inst(st, self.thr(a[0]))
            return HEAD(bv(self.thr(a[0]), 64))

        def c_tr(self, eng, st, a, ins):
            p, n = a[1], bv(a[2], 64)
            eng.prove(st, g(st, self, 8) == 0, 'roots are traced before the collection')
            if isinstance(p, RP) and p.r == self.glb:
                eng.prove(st, z3.And(bv(p.idx, 64) == 0, n == bv(st.regs[self.glb].n, 64)), 'all globals are roots')
                gset(st, self, 0, z3.BitVecVal(1, 32))
            elif isinstance(p, RP) and p.r == self.data:
                eng.prove(st, n == z3.SignExt(32, HEAD(bv(p.idx, 64))), 'all values on the stack of a thread are roots')
                r = st.wr(self.threads)
                r.f[TR] = r.f[TR].write(p.idx, z3.BitVecVal(1, 32))
            elif isinstance(p, (Null, Opq)):
                eng.prove(st, z3.And(bv(st.regs[self.glb].n, 64) == 0, n == 0), 'all globals are roots')
                gset(st, self, 0, z3.BitVecVal(1, 32))
            else: raise Undecided('trace over %r' % (p,))
            return None

        def c_col(self, eng, st, a, ins):
            gset(st, self, 8, simp(g(st, self, 8) + 1))
            n = z3.BitVec('threads.n', 64)
            eng.prove(st, g(st, self, 0) == 1, 'the globals have been traced when the collection happens')
            eng.prove(st, z3.Implies(z3.ULT(K0, n), st.regs[self.threads].f[TR].read(K0) == 1), 'every scheduled thread has been traced when the collection happens')
            return None

    def post(w, eng, s, v):
        eng.prove(s, g(s, w, 8) == 1, 'a collection happens once')
    return simple('vm_t::gc_collect', r'^nano::vm_t::gc_collect\(\)', lambda w: [RP(w.V)], post, W, ('graph', 'pressure'))


def t_vm_reset():
    from .runtasks import VmWorld, gset, g, DELETED

    class W(VmWorld):
        def engine(self, **kw):
            e = VmWorld.engine(self, **kw)
            C = lambda rx, f: (re.compile(rx), f)
            e.contracts = [C(r'^nano::value_gc_t::reset\(\)', self.c_rst), C(r'^std::__cxx11::list<nano::thread_t\*.*>::clear\(', self.l_clear)] + e.contracts
            return e

        def c_rst(self, eng, st, a, ins):
            gset(st, self, 0, z3.BitVecVal(1, 32))
            return None

        def l_clear(self, eng, st, a, ins):
            gset(st, self, 8, z3.BitVecVal(1, 32))
            return None

    def post(w, eng, s, v):
        n = z3.BitVec('threads.n', 64)
        eng.prove(s, g(s, w, 0) == 1, 'reset empties the heap')
        eng.prove(s, g(s, w, 8) == 1, 'reset unschedules every thread')
        eng.prove(s, z3.Implies(z3.ULT(K0, n), w.tf(s, DELETED).read(K0) == 1), 'reset deletes every thread')
        eng.prove(s, bv(s.regs[w.glb].n, 64) == 0, 'no global refers to a value of the emptied heap')
    return simple('vm_t::reset', r'^nano::vm_t::reset\(\)', lambda w: [RP(w.V)], post, W, 'pressure')


def t_stack():
    def pd(w, eng, s, v): eng.prove(s, isinstance(v, RP) and v.r == w.stk and is_c(v.idx) and v.idx == 0, 'data() is the first slot of the stack')
    def ph(w, eng, s, v): eng.prove(s, z3.SignExt(32, bv(v, 32)) == bv(w.n0, 64), 'head() is the number of values on the stack')
    a = lambda w: [RP(w.T, 0, w.offs('thread_t', 'stack_'))]
    return [simple('value_stack_t::data', r'^nano::value_stack_t::data\(', a, pd, World, 'graph'), simple('value_stack_t::head', r'^nano::value_stack_t::head\(', a, ph, World, 'graph')]


def gc_tasks():
    return [t_trace(True), t_trace(False), t_roots(), t_vm_reset(), t_collect(), t_reset(), t_should(), t_alloc(), t_owns(), t_clear(), t_ctor()] + news() + t_stack()
