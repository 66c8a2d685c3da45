"""Thread lifecycle and scheduling: resume/step/prepare of thread_t and the vm_t entry points, against contracts on
step_imp_ (its own contract is discharged opcode by opcode by the 'life' tasks below) and on the collector."""
import re
import z3
from .sx import *
from .sx import Reg
from .world import *
from .world import B64, B32, NULL
from .models import Vec, mk_seq, get_sv, sv_lit, sid_of
from .ir import INT, PTR, Unsupported


def callee_name(eng, ins):
    n = ins.a[1][1]
    return eng.m.aliases.get(n, n)


from . import vmspec
from .task import Task
from .vmtasks import find1, STEP, VARIANTS

G_STEPS, G_NEED, G_ERRH, G_FINH, G_HALT = 0, 8, 16, 24, 32


def g(st, w, off): return st.regs[w.ghost].cells[off][1]


def gset(st, w, off, v): st.wr(w.ghost).cells[off] = (4, v)


class RunWorld(World):
    """thread world in which executing one instruction is the contract of step_imp_"""

    def engine(self, **kw):
        e = World.engine(self, **kw)
        e.cut_loops = True
        e.contracts = [(re.compile(r'^nano::thread_t::step_imp_\(\)'), self.c_step),
                       (re.compile(r'^nano::vm_t::gc_collect\(\)'), self.c_collect),
                       (re.compile(r'^nano::value_gc_t::should_collect\(\)'), self.c_should),
                       (re.compile(r'^nano::program_t::get_line\(unsigned int\) const'), self.c_line)] + e.contracts
        return e

    def make(self, eng, nm=''):
        st = World.make(self, eng, nm)
        G = eng.new_reg(st, 'ghost')
        self.ghost = G.id
        for o in (G_STEPS, G_ERRH, G_FINH, G_HALT): G.cells[o] = (4, z3.BitVecVal(0, 32))
        G.cells[G_NEED] = (4, z3.BitVecVal(1, 32))
        self.before_step = None
        self.inv(eng, st)
        return st

    def inv(self, eng, st):
        """thread invariant: an error finishes the thread; a running thread has a frame"""
        E = self.E
        o = self.offs
        c = st.regs[self.T].cells
        err, fin = c[o('thread_t', 'error_')][1], c[o('thread_t', 'finished_')][1]
        eng.assume(st, z3.Implies(err != E['e_success'], fin != 0))
        eng.assume(st, z3.Implies(fin == 0, z3.UGT(st.regs[self.frm].n, 0)))

    def c_step(self, eng, st, a, ins):
        """contract of step_imp_ (discharged by the life[...] tasks)"""
        o = lambda f: self.offs('thread_t', f)
        T = st.wr(self.T)
        fin = T.cells[o('finished_')][1]
        eng.prove(st, bv(fin, 8) == 0, 'no instruction is executed on a finished thread')
        if self.check_gc: eng.prove(st, g(st, self, G_NEED) == 0, 'the heap occupancy is checked before every instruction')
        if self.before_step: self.before_step(eng, st)
        halt = eng.sym('h', 8)
        eng.assume(st, z3.ULE(halt, 1))
        f2, e2 = eng.sym('fin', 8), eng.sym('err', 32)
        eng.assume(st, z3.ULE(f2, 1))
        nf = eng.sym('nf', 64)
        eng.assume(st, z3.ULT(nf, 1 << 30))
        old = T.cells[o('halted_')][1]
        T.cells[o('halted_')] = (1, simp(bv(old, 8) | halt))
        T.cells[o('finished_')] = (1, f2)
        T.cells[o('error_')] = (4, e2)
        T.cells[o('pc_')] = (4, eng.sym('pc', 32))
        T.cells[o('waits')] = (4, eng.sym('waits', 32))
        T.cells[o('cycles_')] = (4, simp(bv(T.cells[o('cycles_')][1], 32) + 1))
        ll = o('last_line_')
        for f in ('file', 'line'): T.cells[ll + self.offs('line_t', f)] = (4, eng.sym('ll', 32))
        st.wr(self.frm).n = nf
        self.inv(eng, st)
        gset(st, self, G_STEPS, simp(g(st, self, G_STEPS) + 1))
        gset(st, self, G_NEED, z3.BitVecVal(1, 32))
        gset(st, self, G_HALT, simp(z3.ZeroExt(24, halt)))
        return None
    check_gc = True

    def c_collect(self, eng, st, a, ins):
        gset(st, self, G_NEED, z3.BitVecVal(0, 32))
        return None

    def c_should(self, eng, st, a, ins):
        r = eng.sym('need', 32)
        eng.assume(st, z3.ULE(r, 1))
        gset(st, self, G_NEED, r)
        return r == 1

    def line_of(self, pc):
        return self.lines.file(pc), self.lines.line(pc), self.lines.has(pc)

    def c_line(self, eng, st, a, ins):
        """program_t::get_line: a function of the pc (its own contract is property C16)"""
        pc = bv(a[1], 32)
        return z3.Concat(z3.Function('line.line', B32, B32)(pc), z3.Function('line.file', B32, B32)(pc))

    def host_call(self, eng, st, cal, av, ins):
        off = {'on_thread_error': G_ERRH, 'on_thread_finish': G_FINH}.get(cal.kind)
        if off is None: raise Undecided('host call ' + cal.kind)
        eng.prove(st, isinstance(av[0], RP) and av[0].r == self.T, 'the handler receives the thread')
        fin = st.regs[self.T].cells[self.offs('thread_t', 'finished_')][1]
        eng.prove(st, bv(fin, 8) != 0, 'the handler runs only for a finished thread')
        gset(st, self, off, simp(g(st, self, off) + 1))
        eng.trusted.add('host callbacks (handlers, system calls) return and leave VM state alone')
        return eng.symb('hret')


def cell(st, w, f): return st.regs[w.T].cells[w.offs('thread_t', f)][1]


def b1(c, w=32): return z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))


def run_fn(T, setup, rx, args, post, world=RunWorld, pre=None, invs=()):
    w = world(T, breakpoints=True)
    eng = setup(w.engine())
    st = w.make(eng)
    if pre: pre(w, eng, st)
    w.st0 = st.fork()
    eng.canary = False
    eng.loop_invs = [lambda s, f=f: f(w, s) for f in invs]

    def end(s, k, v):
        if k != 'ret':
            eng.prove(s, False, 'throws')
            return
        if not eng.canary and eng.check() == z3.sat: eng.canary = True
        post(w, eng, s, v)
    eng.on_end = end
    eng.start(st, find1(T, rx), args(w))
    eng.run(st)


def same(w, eng, s, names, why):
    for f in names:
        eng.prove(s, bv(cell(s, w, f), cell(w.st0, w, f).size()) == cell(w.st0, w, f), why + f)


STATE = ['error_', 'cycles_', 'pc_', 'finished_', 'halted_', 'waits']


def t_resume():
    cyc = z3.BitVec('arg.cycles', 32)

    def post(w, eng, s, v):
        E = w.E
        fin0 = cell(w.st0, w, 'finished_')
        steps, errh, finh = g(s, w, G_STEPS), g(s, w, G_ERRH), g(s, w, G_FINH)
        v = tobool(v)
        if eng.feasible(fin0 != 0):
            eng.prove(s, z3.Implies(fin0 != 0, z3.And(steps == 0, errh == 0, finh == 0, z3.Not(v))), 'resume of a finished thread does nothing and returns false')
            for f in ('error_', 'cycles_', 'pc_', 'finished_', 'waits'):
                eng.prove(s, z3.Implies(fin0 != 0, bv(cell(s, w, f), cell(w.st0, w, f).size()) == cell(w.st0, w, f)), 'resume of a finished thread keeps ' + f)
        run = fin0 == 0
        fin, err = bv(cell(s, w, 'finished_'), 8), bv(cell(s, w, 'error_'), 32)
        ok = err == E['e_success']
        eng.prove(s, z3.Implies(run, v == ok), 'returns true exactly when no error is pending')
        eng.prove(s, z3.Implies(run, z3.ULE(steps, cyc)), 'executes at most the budgeted number of instructions')
        eng.prove(s, z3.Implies(run, z3.Or(steps == cyc, fin != 0, g(s, w, G_HALT) != 0)), 'stops early only when finished or halted by this run')
        eng.prove(s, z3.Implies(run, bv(cell(s, w, 'cycles_'), 32) == cell(w.st0, w, 'cycles_') + steps), 'the cycle count grows by the instructions executed')
        eh, fh = w.handlers['on_thread_error'], w.handlers['on_thread_finish']
        done = z3.And(steps != 0, fin != 0)
        eng.prove(s, z3.Implies(run, errh == b1(z3.And(done, z3.Not(ok), eh != 0))), 'the error handler is told exactly once about an error, and only then')
        eng.prove(s, z3.Implies(run, finh == b1(z3.And(done, fh != 0))), 'the finish handler is told exactly once about completion, and only then')

    def body(T, setup):
        run_fn(T, setup, r'^nano::thread_t::resume\(int\)', lambda w: [RP(w.T), cyc], post, pre=lambda w, eng, st: eng.assume(st, cyc >= 0),
               invs=[lambda w, s: cell(s, w, 'finished_') == 0, lambda w, s: cell(s, w, 'halted_') == 0, lambda w, s: g(s, w, G_HALT) == 0,
                     lambda w, s: z3.ULE(g(s, w, G_STEPS), cyc),
                     lambda w, s: cell(s, w, 'error_') == w.E['e_success'],
                     lambda w, s: g(s, w, G_ERRH) == 0, lambda w, s: g(s, w, G_FINH) == 0,
                     lambda w, s: z3.Or(cell(s, w, 'finished_') == 0, g(s, w, G_STEPS) != 0),
                     lambda w, s: (cell(s, w, 'halted_') == 0) == (g(s, w, G_HALT) == 0),
                     lambda w, s: z3.Or(cell(s, w, 'finished_') != 0, cell(s, w, 'error_') == w.E['e_success']),
                     lambda w, s: bv(cell(s, w, 'cycles_'), 32) == cell(w.st0, w, 'cycles_') + g(s, w, G_STEPS)])
    return Task('thread_t::resume', body, group='run', info={'native': 'resume'})


def t_step_inst():
    def post(w, eng, s, v):
        fin0 = cell(w.st0, w, 'finished_')
        steps = g(s, w, G_STEPS)
        eng.prove(s, steps == b1(fin0 == 0), 'executes exactly one instruction unless finished')
        eng.prove(s, tobool(v) == z3.And(fin0 == 0, bv(cell(s, w, 'error_'), 32) == w.E['e_success']), 'returns true exactly when the instruction left no error')

    def body(T, setup):
        run_fn(T, setup, r'^nano::thread_t::step_inst\(\)', lambda w: [RP(w.T)], post)
    return Task('thread_t::step_inst', body, group='run', info={'native': 'step'})


def t_step_line():
    LF, LL = z3.Function('line.file', B32, B32), z3.Function('line.line', B32, B32)

    def same_line(a, b): return z3.And(LF(a) == LF(b), LL(a) == LL(b))

    def post(w, eng, s, v):
        fin0, pc0 = cell(w.st0, w, 'finished_'), cell(w.st0, w, 'pc_')
        steps, fin, pc = g(s, w, G_STEPS), bv(cell(s, w, 'finished_'), 8), bv(cell(s, w, 'pc_'), 32)
        eng.prove(s, z3.Implies(fin0 != 0, z3.And(steps == 0, z3.Not(tobool(v)))), 'step_line on a finished thread does nothing')
        eng.prove(s, z3.Implies(fin0 == 0, z3.Or(fin != 0, z3.Not(same_line(pc, pc0)))), 'step_line ends on another source line or at the end')
        eng.prove(s, z3.Implies(fin0 == 0, tobool(v) == (bv(cell(s, w, 'error_'), 32) == w.E['e_success'])), 'returns true exactly when no error is pending')
        if eng.feasible(fin0 == 0): eng.prove(s, z3.Implies(fin0 == 0, g(s, w, G_HALT + 8) != 0), 'makes progress')

    class W(RunWorld):
        def make(self, eng, nm=''):
            st = RunWorld.make(self, eng, nm)
            gset(st, self, G_HALT + 8, z3.BitVecVal(0, 32))

            def before(eng, st):
                eng.prove(st, same_line(bv(cell(st, self, 'pc_'), 32), cell(self.st0, self, 'pc_')), 'step_line stops as soon as the source line changes')
                gset(st, self, G_HALT + 8, z3.BitVecVal(1, 32))
            self.before_step = before
            return st

    def body(T, setup):
        run_fn(T, setup, r'^nano::thread_t::step_line\(\)', lambda w: [RP(w.T)], post, world=W,
               invs=[lambda w, s: cell(s, w, 'finished_') == 0, lambda w, s: same_line(bv(cell(s, w, 'pc_'), 32), cell(w.st0, w, 'pc_')),
                     lambda w, s: z3.Or(cell(s, w, 'finished_') != 0, cell(s, w, 'error_') == w.E['e_success']),
                     lambda w, s: z3.Or(cell(s, w, 'finished_') == 0, g(s, w, G_HALT + 8) != 0)])
    return Task('thread_t::step_line', body, group='run', info={'native': 'stepline'})


OPS = ['ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'AND', 'OR', 'NOT', 'NEG', 'LT', 'GT', 'LEQ', 'GEQ', 'EQ', 'JMP', 'TJMP', 'FJMP', 'CALL', 'RET', 'SCALL', 'ICALL',
       'POP', 'NEW_ARY', 'NEW_INT', 'NEW_STR', 'NEW_NONE', 'NEW_FLT', 'NEW_FUNC', 'NEW_SCALL', 'LOCALS', 'GLOBALS', 'GETV', 'SETV', 'GETG', 'SETG',
       'DEREF', 'SETA', 'GETM', 'SETM', 'ARY_INIT']


def t_life(op):
    """the contract of step_imp_ used by the run loops, for one opcode"""
    def body(T, setup):
        w = World(T)
        eng = setup(w.engine())
        st = w.make(eng)
        vmspec.precondition(w, eng, st, op)
        eng.assume(st, z3.And(w.f['finished_'] == 0, w.f['error_'] == w.E['e_success'], z3.UGT(w.fn0, 0)))
        w.st0 = st.fork()
        eng.canary = False
        # memory safety and results of the instruction are the business of C01..C06
        eng.ob_filter = lambda name: name.startswith(op + ': ')

        def end(s, k, v):
            if k != 'ret': return
            if not eng.canary and eng.check() == z3.sat: eng.canary = True
            fin, err = bv(cell(s, w, 'finished_'), 8), bv(cell(s, w, 'error_'), 32)
            eng.prove(s, z3.Implies(err != w.E['e_success'], fin != 0), op + ': an error finishes the thread')
            eng.prove(s, z3.Implies(fin == 0, z3.UGT(bv(s.regs[w.frm].n, 64), 0)), op + ': a running thread has a call frame')
            eng.prove(s, bv(cell(s, w, 'cycles_'), 32) == w.f['cycles_'] + 1, op + ': counts as one cycle')
            eng.prove(s, bv(cell(s, w, 'halted_'), 8) == w.f['halted_'], op + ': does not halt the thread')
            eng.prove(s, bv(cell(s, w, 'waits'), 32) == w.f['waits'], op + ': does not make the thread wait')
        eng.on_end = end
        eng.start(st, find1(T, STEP), [RP(w.T)])
        eng.run(st)
    return Task('life[%s]' % op, body, group='run', info={'native': 'life'})


# ------------------------------------------------------------------ vm_t over a list of threads of any length
LI = r'std::_List_(const_)?iterator<nano::thread_t\*>'
ERASED, DELETED, RESUMED, BUDGET = (200, 1), (201, 1), (204, 4), (208, 4)
RES_FIN, RES_ERR, RES_WAIT = (z3.Function('resume.' + n, B64, z3.BitVecSort(w)) for n, w in (('finished', 8), ('error', 32), ('waits', 32)))


class VmWorld(World):
    """vm_t whose thread list is a sequence of any length; list positions stay stable (erased positions are marked)"""

    def engine(self, **kw):
        e = World.engine(self, **kw)
        C = lambda rx, f: (re.compile(rx), f)
        e.contracts = [C(r'^std::__cxx11::list<nano::thread_t\*.*>::c?begin\(\)', self.l_begin),
                       C(r'^std::__cxx11::list<nano::thread_t\*.*>::c?end\(\)', self.l_end),
                       C(r'^std::__cxx11::list<nano::thread_t\*.*>::empty\(\) const', self.l_empty),
                       C(r'^std::__cxx11::list<nano::thread_t\*.*>::size\(\) const', self.l_size),
                       C(r'^std::__cxx11::list<nano::thread_t\*.*>::erase\(' + LI + r'\)', self.l_erase),
                       C(r'^std::__cxx11::list<nano::thread_t\*.*>::push_front\(', self.l_push),
                       C(r'^(bool )?std::operator(==|!=).*\(' + LI, self.i_cmp),
                       C(r'^' + LI + r'::operator(==|!=)\(', self.i_cmp),
                       C(r'^' + LI + r'::operator\+\+\((int)?\)', self.i_inc),
                       C(r'^' + LI + r'::operator\*\(\) const', self.i_deref),
                       C(r'^std::_List_const_iterator<nano::thread_t\*>::_List_const_iterator\(std::_List_iterator', self.i_conv),
                       C(r'^nano::thread_t::resume\(int\)', self.c_resume),
                       C(r'^nano::thread_t::~thread_t\(\)', self.c_dtor),
                       C(r'^nano::vm_t::gc_collect\(\)', self.c_gc),
                       C(r'^operator delete\(void\*', self.c_delete)] + e.contracts
        return e

    def c_gc(self, eng, st, a, ins): return None

    def l_empty(self, eng, st, a, ins):
        return z3.simplify(bv(self.l_size(eng, st, a, ins), 64) == 0)

    def l_size(self, eng, st, a, ins):
        if st.regs[self.threads].f[ERASED] is not self.er0: raise Undecided('list size after an erase')
        return bv(st.regs[self.list].n, 64)

    def make(self, eng, nm=''):
        st = World.make(self, eng, nm)
        n = z3.BitVec('threads.n', 64)
        eng.assume(st, z3.ULT(n, 1 << 30))
        Th = eng.new_seq(st, 'threads', self.t.sizes['thread_t'], n)
        from .models import lazy_field
        Th.meta, Th.lazy = {}, lazy_field('threads')
        zero = lambda w: Fun(lambda i: z3.BitVecVal(0, w))
        for k in (ERASED, DELETED, RESUMED, BUDGET): Th.f[k] = zero(k[1] * 8)
        self.threads = Th.id
        self.er0 = Th.f[ERASED]
        L = eng.new_seq(st, 'threadlist', 8, n)
        L.meta = {'wrap': lambda eng, st, v, p: RP(self.threads, p.idx, 0)}
        L.lazy = lazy_field('threadlist')
        self.list = L.id
        for f, sz in (('finished_', 1), ('waits', 4), ('error_', 4)):
            eng.seq_field(st, Th, self.offs('thread_t', f), sz, INT(sz * 8))
        fin, err, wt = self.tf(st, 'finished_'), self.tf(st, 'error_'), self.tf(st, 'waits')
        st.quant.append(lambda i: z3.And(z3.ULE(fin.read(i), 1), z3.Implies(err.read(i) != self.E['e_success'], fin.read(i) != 0), wt.read(i) >= 0))
        eng.trusted.add('a host never makes a thread wait a negative number of rounds')
        G = eng.new_reg(st, 'ghost')
        self.ghost = G.id
        for o in (0, 8): G.cells[o] = (4, z3.BitVecVal(0, 32))
        return st

    TW = {'finished_': 1, 'waits': 4, 'error_': 4}

    def tf(self, st, f):
        if isinstance(f, tuple): return st.regs[self.threads].f[f]
        return st.regs[self.threads].f[self.offs('thread_t', f), self.TW[f]]

    def l_begin(self, eng, st, a, ins): return RP(self.list, 0, 0)
    def l_end(self, eng, st, a, ins): return RP(self.list, st.regs[self.list].n, 0)

    def it(self, eng, st, p):
        v = eng.load(st, p, PTR)
        if not (isinstance(v, RP) and v.r == self.list): raise Undecided('list iterator %r' % (v,))
        return v

    def i_cmp(self, eng, st, a, ins):
        d = eng.m.dem(callee_name(eng, ins))
        x, y = self.it(eng, st, a[0]), self.it(eng, st, a[1])
        e = bv(x.idx, 64) == bv(y.idx, 64)
        return z3.simplify(z3.Not(e) if 'operator!=' in d else e)

    def i_inc(self, eng, st, a, ins):
        if len(a) > 1 and not eng.m.dem(callee_name(eng, ins)).endswith('(int)'): raise Undecided('iterator increment')
        v = self.it(eng, st, a[0])
        eng.trap(st, z3.ULT(bv(v.idx, 64), bv(st.regs[self.list].n, 64)), 'the list iterator is not advanced past the end')
        n = RP(v.r, simp(bv(v.idx, 64) + 1), 0)
        eng.store(st, a[0], PTR, n)
        return v if len(a) > 1 else a[0]

    def i_deref(self, eng, st, a, ins):
        v = self.it(eng, st, a[0])
        eng.trap(st, z3.ULT(bv(v.idx, 64), bv(st.regs[self.list].n, 64)), 'the end iterator is not dereferenced')
        eng.trap(st, self.tf(st, ERASED).read(v.idx) == 0, 'no access to an erased list element')
        eng.inst(st, bv(v.idx, 64))
        return RP(self.list, v.idx, 0)

    def i_conv(self, eng, st, a, ins):
        eng.store(st, a[0], PTR, self.it(eng, st, a[1]))
        return None

    def tset(self, st, k, i, v): st.wr(self.threads).f[k] = st.regs[self.threads].f[k].write(i, v)

    def l_erase(self, eng, st, a, ins):
        v = a[1]
        if not (isinstance(v, RP) and v.r == self.list): raise Undecided('erase position')
        eng.trap(st, z3.ULT(bv(v.idx, 64), bv(st.regs[self.list].n, 64)), 'the end position is not erased')
        eng.trap(st, self.tf(st, ERASED).read(v.idx) == 0, 'an element is erased once')
        self.tset(st, ERASED, v.idx, z3.BitVecVal(1, 8))
        return RP(self.list, simp(bv(v.idx, 64) + 1), 0)

    def thread_idx(self, p):
        if not (isinstance(p, RP) and p.r == self.threads and p.off == 0): raise Undecided('thread pointer %r' % (p,))
        return p.idx

    def c_resume(self, eng, st, a, ins):
        """contract of thread_t::resume (proved by the thread_t::resume task)"""
        i = self.thread_idx(a[0])
        eng.trap(st, self.tf(st, DELETED).read(i) == 0, 'no use of a deleted thread')
        r = self.tf(st, RESUMED).read(i)
        eng.prove(st, r == 0, 'a thread is resumed at most once per scheduling round')
        fo = lambda f: (self.offs('thread_t', f), self.TW[f])
        i64 = bv(i, 64)
        fin0 = self.tf(st, 'finished_').read(i)
        eng.assume(st, z3.And(z3.ULE(RES_FIN(i64), 1), z3.Implies(RES_ERR(i64) != self.E['e_success'], RES_FIN(i64) != 0)))
        self.tset(st, RESUMED, i, simp_k(r + 1))
        self.tset(st, BUDGET, i, bv(a[1], 32))
        ret = z3.And(fin0 == 0, RES_ERR(i64) == self.E['e_success'])
        self.tset(st, fo('finished_'), i, RES_FIN(i64))
        self.tset(st, fo('error_'), i, RES_ERR(i64))
        self.tset(st, fo('waits'), i, RES_WAIT(i64))
        return ret

    def c_dtor(self, eng, st, a, ins):
        i = self.thread_idx(a[0])
        eng.trap(st, self.tf(st, DELETED).read(i) == 0, 'a thread is deleted once')
        self.tset(st, DELETED, i, z3.BitVecVal(1, 8))
        return None

    def c_delete(self, eng, st, a, ins): return None
    def l_push(self, eng, st, a, ins): raise Undecided('push_front while iterating')


def simp_k(v): return z3.simplify(v) if z3.is_expr(v) else v


def t_vm_resume():
    cyc = z3.BitVec('arg.cycles', 32)

    def post(w, eng, s, v):
        E = w.E
        n = z3.BitVec('threads.n', 64)
        i, j = z3.BitVec('sk.i', 64), z3.BitVec('sk.j', 64)
        eng.solver.push()
        try:
            s = s.fork()
            eng.assume(s, z3.And(z3.ULT(i, n), z3.ULT(j, i)))
            for x in (i, j): eng.inst(s, x)
            P = lambda f, x: w.tf(w.st0, f).read(x)
            N = lambda f, x: w.tf(s, f).read(x)
            keep = lambda x: z3.And(N('finished_', x) == P('finished_', x), N('error_', x) == P('error_', x))

            def cases(x):
                wait = P('waits', x) != 0
                dead = z3.And(z3.Not(wait), z3.Or(P('finished_', x) != 0, P('error_', x) != E['e_success']))
                run = z3.And(z3.Not(wait), z3.Not(dead))
                return wait, dead, run

            def done(x):
                wait, dead, run = cases(x)
                return [('a waiting thread only counts down', z3.Implies(wait, z3.And(N('waits', x) == P('waits', x) - 1, N(RESUMED, x) == 0, N(ERASED, x) == 0, N(DELETED, x) == 0, keep(x)))),
                        ('a finished thread is deleted and unscheduled without running', z3.Implies(dead, z3.And(N(RESUMED, x) == 0, N(ERASED, x) == 1, N(DELETED, x) == 1))),
                        ('a runnable thread gets exactly one slice of the given budget and stays scheduled', z3.Implies(run, z3.And(N(RESUMED, x) == 1, N(BUDGET, x) == cyc, N(ERASED, x) == 0, N(DELETED, x) == 0)))]
            ok = tobool(v)
            if eng.feasible(ok):
                for nm, c in done(i): eng.prove(s, z3.Implies(ok, c), nm)
                eng.prove(s, z3.Implies(z3.And(ok, cases(i)[2]), RES_ERR(i) == E['e_success']), 'returns true only when no resumed thread has an error')
            if eng.feasible(z3.Not(ok)):
                untouched = z3.And(N('waits', i) == P('waits', i), N(RESUMED, i) == 0, N(ERASED, i) == 0, N(DELETED, i) == 0, keep(i))
                full = z3.And([c for _, c in done(i)])
                eng.prove(s, z3.Implies(z3.Not(ok), z3.Or(full, untouched)), 'after an error each thread was handled in full or not at all')
                jfail = z3.And(cases(j)[2], RES_ERR(j) != E['e_success'], N(RESUMED, j) == 1)
                eng.prove(s, z3.Implies(z3.And(z3.Not(ok), jfail), untouched), 'the round stops at the first thread with an error')
                jdone = z3.And([c for _, c in done(j)])
                eng.prove(s, z3.Implies(z3.And(z3.Not(ok), z3.Not(untouched)), jdone), 'threads are handled in list order')
                eng.prove(s, z3.Implies(z3.Not(ok), w.failed(s)), 'returns false only when a resumed thread has an error')
        finally: eng.solver.pop()

    class W(VmWorld):
        def failed(self, s): return s.regs[self.ghost].cells[0][1] != 0

        def c_resume(self, eng, st, a, ins):
            ret = VmWorld.c_resume(self, eng, st, a, ins)

            def bad(s):
                gset(s, self, 0, z3.BitVecVal(1, 32))
                return False
            return [Alt(ret, lambda s: True), Alt(z3.Not(ret), bad)]

    def body(T, setup):
        run_fn(T, setup, r'^nano::vm_t::resume\(unsigned int\)', lambda w: [RP(w.V), cyc], post, world=W)
    return Task('vm_t::resume', body, group='run', info={'native': 'sched'})


def t_vm_finished():
    def post(w, eng, s, v):
        n = z3.BitVec('threads.n', 64)
        i = z3.BitVec('sk.i', 64)
        eng.solver.push()
        try:
            s = s.fork()
            eng.assume(s, z3.ULT(i, n))
            eng.inst(s, i)
            eng.prove(s, z3.Implies(tobool(v), w.tf(w.st0, 'finished_').read(i) != 0), 'finished() only when every thread has finished')
            for k in (ERASED, DELETED, RESUMED): eng.prove(s, w.tf(s, k).read(i) == 0, 'finished() leaves the threads alone')
        finally: eng.solver.pop()
        if eng.feasible(z3.Not(tobool(v))):
            eng.prove(s, z3.Implies(z3.Not(tobool(v)), z3.And(z3.ULT(s.regs[w.ghost].cells[16][1], n), w.tf(w.st0, 'finished_').read(s.regs[w.ghost].cells[16][1]) == 0)),
                      'not finished() only when some thread is still running')

    class W(VmWorld):
        def make(self, eng, nm=''):
            st = VmWorld.make(self, eng, nm)
            st.wr(self.ghost).cells[16] = (8, z3.BitVecVal(-1, 64))
            return st

        def i_deref(self, eng, st, a, ins):
            r = VmWorld.i_deref(self, eng, st, a, ins)
            st.wr(self.ghost).cells[16] = (8, bv(r.idx, 64))
            return r

    def body(T, setup):
        run_fn(T, setup, r'^nano::vm_t::finished\(\) const', lambda w: [RP(w.V)], post, world=W)
    return Task('vm_t::finished', body, group='run', info={'native': 'sched'})


class PrepWorld(World):
    def make(self, eng, nm=''):
        st = World.make(self, eng, nm)
        self.argc = z3.BitVec('arg.argc', 32)
        eng.assume(st, z3.And(self.argc >= 0, self.argc < (1 << 16)))
        r = mk_seq(eng, st, 'argv', 'nano::value_t*', z3.SignExt(32, self.argc))
        self.argv = r.id
        self.func = z3.BitVec('arg.func', 64)
        eng.assume(st, z3.ULT(self.func, st.regs[self.fns].n))
        self.arena_check = None
        return st

    COPY = z3.Function('gc.copy', B64, B64)

    def engine(self, **kw):
        e = World.engine(self, **kw)
        e.contracts = [(re.compile(r'^nano::value_gc_t::copy\(nano::value_t const&\)'), self.c_copy)] + e.contracts
        return e

    def c_copy(self, eng, st, a, ins):
        """contract of value_gc_t::copy (proved by its own task): none stays none, any other non-array value yields a new equal value"""
        b = eng.hbase(a[1])
        st.heap['ptr'](eng, st, b)
        st.heap['touch'](eng, st, b)
        E = self.E
        eng.prove(st, z3.Or(b == 0, st.heap['t'].read(b) != E['val_type_array']), 'requires of copy: not an array')
        eng.assume(st, self.COPY(z3.BitVecVal(0, 64)) == 0)
        return HP(z3.simplify(self.COPY(b)))


def t_prepare():
    def spec(w, ret):
        def f(S):
            E = w.E
            start = z3.Function('functions.f%d_4' % w.offs('function_t', 'code_start_'), B64, B32)(w.func)
            S.set('error_', E['e_success'])
            S.set('finished_', 1)
            S.set('cycles_', 0)
            S.set('halted_', 0)
            S.jump(start)
            S.st.wr(w.stk).n = z3.BitVecVal(0, 64)
            if S.b(z3.Extract(31, 0, w.nargs(w.func)) != w.argc):
                S.set('error_', E['e_bad_num_args'])
                S.eng.prove(S.st, z3.Not(tobool(ret)), 'a bad argument count is refused')
                return
            fa = S.eng.seq_field(S.st, S.st.regs[w.argv], 0, 8, PTR)

            def arg(k):
                p = fa.read(bv(k, 64))
                return z3.If(z3.And(p != 0, S.st.heap['t'].read(p) == E['val_type_array']), p, w.COPY(p))
            S.eng.assume(S.st, w.COPY(z3.BitVecVal(0, 64)) == 0)
            S.push_range(z3.SignExt(32, w.argc), arg)
            S.push_frame(sp_=w.argc, return_=start, callee_=start, terminal_=z3.BitVecVal(1, 8))
            S.set('finished_', 0)
            S.eng.prove(S.st, tobool(ret), 'a matching argument count is accepted')
        return f

    def body(T, setup):
        from .world import refine
        w = PrepWorld(T)
        eng = setup(w.engine())
        st = w.make(eng)
        w.st0 = st.fork()
        eng.canary = False

        def end(s, k, v):
            if k != 'ret':
                eng.prove(s, False, 'prepare throws')
                return
            if not eng.canary and eng.check() == z3.sat: eng.canary = True
            refine(w, eng, s, spec(w, v), 'prepare', fields=['error_', 'finished_', 'cycles_', 'halted_', 'pc_', 'waits'])
        eng.on_end = end
        eng.start(st, find1(T, r'^nano::thread_t::prepare\('), [RP(w.T), RP(w.fns, w.func, 0), w.argc, RP(w.argv, 0, 0)])
        eng.run(st)
    return Task('thread_t::prepare', body, group='run', info={'native': 'prepare'})


class NewWorld(World):
    """vm_t::new_thread / call_once / call_init over contracts of thread_t"""

    def engine(self, **kw):
        e = World.engine(self, **kw)
        e.cut_loops = True
        C = lambda rx, f: (re.compile(rx), f)
        U = r'^std::unique_ptr<nano::thread_t, std::default_delete<nano::thread_t>\s?>::'
        e.contracts = [C(r'^operator new\(unsigned long\)', self.c_new), C(r'^operator delete\(void\*', lambda *a: None),
                       C(r'^nano::thread_t::thread_t\(nano::vm_t&\)', self.c_ctor), C(r'^nano::thread_t::~thread_t\(\)', self.c_dtor),
                       C(r'^nano::thread_t::prepare\(', self.c_prepare),
                       C(U + r'unique_ptr<', self.u_ctor), C(U + r'(get\(\)|operator->\(\)) const', self.u_get), C(U + r'release\(\)', self.u_release),
                       C(U + r'~unique_ptr\(\)', self.u_dtor),
                       C(r'^nano::thread_t::resume\(int\)', self.c_resume),
                       C(r'^nano::vm_t::gc_collect\(\)', lambda *a: None),
                       C(r'^std::__cxx11::list<nano::thread_t\*.*>::(push_front|push_back|emplace_front|emplace_back)', self.l_push)] + e.contracts
        return e

    def make(self, eng, nm=''):
        st = World.make(self, eng, nm)
        G = eng.new_reg(st, 'ghost')
        self.ghost = G.id
        for o in (0, 8, 16, 24, 32, 40): G.cells[o] = (4, z3.BitVecVal(0, 32))
        self.prep = z3.Bool('prepare.ok')
        return st
    CT, DT, PR, PU, NW, RS = 0, 8, 16, 24, 32, 40

    def inc(self, st, o): gset(st, self, o, simp_k(g(st, self, o) + 1))

    def is_t(self, p): return isinstance(p, RP) and p.r == self.T and p.off == 0

    def c_new(self, eng, st, a, ins):
        eng.prove(st, g(st, self, self.NW) == 0, 'one thread object per call')
        eng.prove(st, z3.UGE(bv(a[0], 64), self.t.sizes['thread_t']), 'room for a thread object')
        self.inc(st, self.NW)
        return RP(self.T)

    def c_ctor(self, eng, st, a, ins):
        if not self.is_t(a[0]): raise Undecided('thread constructed elsewhere')
        eng.prove(st, isinstance(a[1], RP) and a[1].r == self.V, 'the thread belongs to this vm')
        self.inc(st, self.CT)
        return None

    def c_dtor(self, eng, st, a, ins):
        self.inc(st, self.DT)
        return None

    def c_prepare(self, eng, st, a, ins):
        ok = self.is_t(a[0]) and self.prep_args(a)
        eng.prove(st, ok, 'the thread is prepared with the given function and arguments')
        eng.prove(st, g(st, self, self.PU) == 0, 'a thread is prepared before it is scheduled')
        self.inc(st, self.PR)
        T = st.wr(self.T)
        o = lambda f: self.offs('thread_t', f)
        T.cells[o('finished_')] = (1, z3.If(self.prep, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8)))
        T.cells[o('error_')] = (4, z3.If(self.prep, z3.BitVecVal(self.E['e_success'], 32), z3.BitVecVal(self.E['e_bad_num_args'], 32)))
        return self.prep

    def u_ctor(self, eng, st, a, ins):
        eng.store(st, a[0], PTR, a[1])
        return None

    def u_get(self, eng, st, a, ins): return eng.load(st, a[0], PTR)

    def u_release(self, eng, st, a, ins):
        v = eng.load(st, a[0], PTR)
        eng.store(st, a[0], PTR, NULL)
        return v

    def u_dtor(self, eng, st, a, ins):
        v = eng.load(st, a[0], PTR)
        if isinstance(v, Null): return None
        return self.c_dtor(eng, st, [v], ins)

    def l_push(self, eng, st, a, ins):
        v = eng.load(st, a[1], PTR)
        if not self.is_t(v): raise Undecided('pushed thread %r' % (v,))
        eng.prove(st, isinstance(a[0], RP) and a[0].r == self.V and a[0].off == self.offs('vm_t', 'threads_'), 'pushed onto the thread list')
        self.inc(st, self.PU)
        return None

    def c_resume(self, eng, st, a, ins):
        eng.prove(st, self.is_t(a[0]), 'resumes the new thread')
        T = st.wr(self.T)
        o = lambda f: self.offs('thread_t', f)
        fin0 = bv(T.cells[o('finished_')][1], 8)
        f2, e2 = eng.sym('fin', 8), eng.sym('err', 32)
        eng.assume(st, z3.And(z3.ULE(f2, 1), z3.Implies(e2 != self.E['e_success'], f2 != 0)))
        eng.prove(st, fin0 == 0, 'only an unfinished thread is resumed')
        eng.prove(st, bv(a[1], 32) != 0, 'with a budget')
        T.cells[o('finished_')] = (1, f2)
        T.cells[o('error_')] = (4, e2)
        return e2 == self.E['e_success']


def t_new_thread():
    def post(w, eng, s, v):
        if isinstance(v, MaybeP): raise Undecided('maybe pointer')
        isnull = isinstance(v, Null)
        eng.prove(s, isnull or w.is_t(v), 'returns the new thread or null')
        eng.prove(s, z3.Not(w.prep) if isnull else w.prep, 'returns a thread exactly when it could be prepared')
        x = 1 if not isnull else 0
        eng.prove(s, g(s, w, w.PU) == x, 'scheduled exactly once, and only when prepared')
        eng.prove(s, g(s, w, w.DT) == 1 - x, 'destroyed exactly when it could not be prepared')
        eng.prove(s, z3.And(g(s, w, w.CT) == 1, g(s, w, w.PR) == 1), 'constructed and prepared once')

    class W(NewWorld):
        def prep_args(self, a): return isinstance(a[1], Opq) and str(a[1].t) == 'arg.f' and isinstance(a[3], Opq) and str(a[3].t) == 'arg.v' and z3.is_expr(a[2]) and str(a[2]) == 'arg.n'

    def body(T, setup):
        run_fn(T, setup, r'^nano::vm_t::new_thread\(', lambda w: [RP(w.V), Opq(z3.BitVec('arg.f', 64)), z3.BitVec('arg.n', 32), Opq(z3.BitVec('arg.v', 64))], post, world=W)
    return Task('vm_t::new_thread', body, group='run', info={'native': 'prepare'})


def t_call_once():
    def post(w, eng, s, v):
        E = w.E
        ok = tobool(v)
        fin, err = bv(cell(s, w, 'finished_'), 8), bv(cell(s, w, 'error_'), 32)
        rc, ec = s.regs[w.out].cells[0][1], bv(s.regs[w.out].cells[8][1], 32)
        eng.prove(s, z3.Implies(z3.Not(w.prep), z3.And(z3.Not(ok), ec == E['e_bad_num_args'])), 'arguments that do not match are reported as an error')
        eng.prove(s, z3.Implies(w.prep, ok == (err == E['e_success'])), 'succeeds exactly when the thread had no error')
        eng.prove(s, z3.Implies(z3.And(w.prep, z3.Not(ok)), ec == err), 'reports the error of the thread')
        eng.prove(s, z3.Implies(ok, z3.And(ec == E['e_success'], fin != 0)), 'succeeds only after the thread has run to completion')
        if eng.feasible(ok):
            n = s.regs[w.stk].n
            top = eng.seq_field(s, s.regs[w.stk], 0, 8, PTR).read(simp(bv(n, 64) - 1))
            rcb = rc if z3.is_expr(rc) else eng.hbase(rc)
            eng.prove(s, z3.Implies(ok, rcb == top), 'the result is the value the function returned')

    class W(NewWorld):
        def engine(self, **kw):
            e = NewWorld.engine(self, **kw)
            e.contracts = [(re.compile(r'^nano::vm_t::new_thread\('), self.c_new_thread)] + e.contracts
            return e

        def make(self, eng, nm=''):
            st = NewWorld.make(self, eng, nm)
            r = eng.new_reg(st, 'out')
            r.cells[0] = (8, Opq(z3.BitVec('out.rc', 64)))
            r.cells[8] = (4, z3.BitVec('out.err', 32))
            self.out = r.id
            eng.assume(st, z3.UGT(self.n0, 0))
            return st

        def c_new_thread(self, eng, st, a, ins):
            T = st.wr(self.T)
            o = lambda f: self.offs('thread_t', f)
            T.cells[o('finished_')] = (1, z3.BitVecVal(0, 8))
            T.cells[o('error_')] = (4, z3.BitVecVal(self.E['e_success'], 32))
            return [Alt(self.prep, lambda s: RP(self.T)), Alt(z3.Not(self.prep), lambda s: NULL)]

    def body(T, setup):
        run_fn(T, setup, r'^nano::vm_t::call_once\(', lambda w: [RP(w.V), Opq(z3.BitVec('arg.f', 64)), z3.BitVec('arg.n', 32), Opq(z3.BitVec('arg.v', 64)), RP(w.out, 0, 0), RP(w.out, 0, 8)], post, world=W,
               invs=[lambda w, s: z3.Implies(cell(s, w, 'error_') != w.E['e_success'], cell(s, w, 'finished_') != 0), lambda w, s: cell(s, w, 'error_') == w.E['e_success']])
    return Task('vm_t::call_once', body, group='run', info={'native': 'once'})


def t_call_init():
    """vm_t::call_init over the contracts of function_find, new_thread and thread_t::resume"""
    def post(w, eng, s, v):
        ok = tobool(v)
        fin, err = bv(cell(s, w, 'finished_'), 8), bv(cell(s, w, 'error_'), 32)
        eng.prove(s, z3.Implies(ok, z3.And(w.found, w.prep)), 'initialisation succeeds only when there is an initialiser that starts')
        eng.prove(s, z3.Implies(z3.And(w.found, w.prep), ok == (err == w.E['e_success'])), 'initialisation succeeds exactly when its thread had no error')
        eng.prove(s, z3.Implies(ok, fin != 0), 'initialisation has run to completion when it succeeds')

    class W(NewWorld):
        def engine(self, **kw):
            e = NewWorld.engine(self, **kw)
            e.contracts = [(re.compile(r'^nano::vm_t::new_thread\('), self.c_new_thread), (re.compile(r'^nano::program_t::function_find\(std::'), self.c_find)] + e.contracts
            self.found = z3.Bool('init.found')
            return e

        def c_find(self, eng, st, a, ins):
            """function_find(name): null or the function (contract table:find)"""
            eng.prove(st, sid_of(eng, st, get_sv(eng, st, a[1])) == sid_of(eng, st, sv_lit(b'@init')), 'looks for the initialiser')
            return MaybeP(self.found, RP(self.fns, z3.BitVec('init.f', 64), 0))

        def c_new_thread(self, eng, st, a, ins):
            f = a[1]
            if isinstance(f, MaybeP):
                eng.prove(st, f.c, 'only when there is one')
                f = f.p
            eng.prove(st, isinstance(f, RP) and f.r == self.fns and bv(f.idx, 64) == z3.BitVec('init.f', 64), 'starts the initialiser')
            eng.prove(st, bv(a[2], 32) == 0, 'without arguments')
            T = st.wr(self.T)
            o = lambda f: self.offs('thread_t', f)
            T.cells[o('finished_')] = (1, z3.BitVecVal(0, 8))
            T.cells[o('error_')] = (4, z3.BitVecVal(self.E['e_success'], 32))
            return [Alt(self.prep, lambda s: RP(self.T)), Alt(z3.Not(self.prep), lambda s: NULL)]

    def body(T, setup):
        run_fn(T, setup, r'^nano::vm_t::call_init\(', lambda w: [RP(w.V)], post, world=W,
               invs=[lambda w, s: z3.Implies(cell(s, w, 'error_') != w.E['e_success'], cell(s, w, 'finished_') != 0), lambda w, s: cell(s, w, 'error_') == w.E['e_success']])
    return Task('vm_t::call_init', body, group='run', info={'native': 'init'})


def run_tasks_all():
    return [t_resume(), t_step_inst(), t_step_line(), t_prepare(), t_copy(), t_new_thread(), t_call_once(), t_call_init(), t_vm_resume(), t_vm_finished()] + [t_life(o) for o in OPS]


def t_copy():
    """value_gc_t::copy: a fresh value equal to the original"""
    from .world import refine

    def body(T, setup):
        w = World(T)
        eng = setup(w.engine())
        st = w.make(eng)
        p = z3.BitVec('arg.v', 64)
        st.heap['ptr'](eng, st, p)
        st.heap['touch'](eng, st, p)
        eng.assume(st, z3.Or(p == 0, z3.Function('heap.t', B64, B32)(p) != w.E['val_type_array']))
        w.st0 = st.fork()
        eng.canary = False

        def end(s, k, v):
            if k != 'ret':
                eng.prove(s, False, 'copy throws')
                return
            if not eng.canary and eng.check() == z3.sat: eng.canary = True

            def spec(S):
                if S.b(S.is_none(p)): r = S.NONE
                elif S.b(S.isa(p, 'string')): r = S.new_str(S.strval(p))
                else: r = S.new_like(p)
                S.eng.prove(S.st, eng.hbase(v) == r, 'copy returns the new value')
            refine(w, eng, s, spec, 'copy', fields=['pc_'])
        eng.on_end = end
        eng.start(st, find1(T, r'^nano::value_gc_t::copy\('), [RP(w.G), HP(p)])
        eng.run(st)
    return Task('value_gc_t::copy', body, group='run', info={'native': 'prepare'})


def t_break(op):
    """halting at breakpoints and the pc of an instruction that failed, for one opcode"""
    LF, LL = z3.Function('line.file', B32, B32), z3.Function('line.line', B32, B32)

    class W(World):
        def engine(self, **kw):
            e = World.engine(self, **kw)
            e.contracts = [(re.compile(r'^nano::program_t::get_line\(unsigned int\) const'), RunWorld.c_line.__get__(self))] + e.contracts
            return e

    def body(T, setup):
        w = W(T, breakpoints=True)
        eng = setup(w.engine())
        st = w.make(eng)
        vmspec.precondition(w, eng, st, op)
        eng.assume(st, z3.And(w.f['finished_'] == 0, w.f['error_'] == w.E['e_success'], z3.UGT(w.fn0, 0)))
        w.st0 = st.fork()
        eng.canary = False
        eng.ob_filter = lambda name: name.startswith(op + ': ')
        lo = w.offs('thread_t', 'last_line_')
        of, ol = [eng.load(st, RP(w.T, 0, lo + d), INT(32)) for d in (0, 4)]
        B = st.regs[w.T].objs[w.offs('thread_t', 'breakpoints_')]

        def end(s, k, v):
            if k != 'ret': return
            if not eng.canary and eng.check() == z3.sat: eng.canary = True
            err, pc = bv(cell(s, w, 'error_'), 32), bv(cell(s, w, 'pc_'), 32)
            f, l = LF(pc), LL(pc)
            bad = err != w.E['e_success']
            eng.prove(s, z3.Implies(bad, pc == w.f['pc_']), op + ': an error is reported at the instruction that failed')
            hit = z3.And(z3.Not(B.e), B.c(f, l), z3.Or(f != of, l != ol))
            h0, h = w.f['halted_'] != 0, bv(cell(s, w, 'halted_'), 8) != 0
            eng.prove(s, z3.Implies(z3.Not(bad), h == z3.Or(h0, hit)), op + ': halts exactly when a line with a breakpoint is reached')
            nf, nl = [bv(eng.load(s, RP(w.T, 0, lo + d), INT(32)), 32) for d in (0, 4)]
            eng.prove(s, z3.Implies(z3.Not(z3.Or(B.e, bad)), z3.And(nf == f, nl == l)), op + ': remembers the line it is on')
        eng.on_end = end
        eng.start(st, find1(T, STEP), [RP(w.T)])
        eng.run(st)
    return Task('break[%s]' % op, body, group='run', info={'native': ('meet', 'lines')})
