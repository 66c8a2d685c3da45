"""Sources: files read, the text kept and the table of its lines (C17)."""
import re
import z3
from .sx import *
from .sx import Reg
from .ast import must
from .models import Vec, the_obj, get_sv, init_sv, sv_lit
from .ir import PTR, INT
from .task import Task
from .hosttasks import ProgWorld, buf, run, J

B64, B8, B32 = z3.BitVecSort(64), z3.BitVecSort(8), z3.BitVecSort(32)
PTRV = 'char const*'
CNT = z3.Function('newlines.before', B64, B64)
P = z3.BitVec('any.pos', 64)


class LineLoop:
    """the text read so far has given its lines"""
    events = writes = False
    nolin = True

    def __init__(self, w, eng): self.w, self.eng = w, eng

    def havoc(self, eng, st, sh): return ()

    def posns(self, hv):
        for l, (x, v, wd) in hv.items():
            if isinstance(x, RP) and x.r == 'text' and isinstance(v, RP): yield l, bv(x.idx, 64), bv(v.idx, 64)
            elif not isinstance(x, Ptr) and wd == 64 and not z3.is_fp(x) and l[0] == 'phi': yield l, bv(x, 64), bv(v, 64)

    def havoc2(self, eng, st, sh, hv):
        for l, x, v in self.posns(hv): sh.pc += self.w.define(x)

    def facts(self, s, t):
        w = self.w
        n = bv(s.regs[w.q].n, 64)
        f = w.line(s)
        return [z3.ULE(t, w.n), n == CNT(t) + 1, z3.ULE(CNT(t), t), f(0) == 0,
                z3.Implies(z3.And(z3.ULT(P, t), w.nl(P)), z3.And(z3.ULT(CNT(P), CNT(t)), f(CNT(P) + 1) == P + 1))]

    def cands(self, eng, st, sh, hv, cur):
        out = []
        for l, x, v in self.posns(hv):
            for i in range(5):
                out.append(('lines', self.facts(st, v)[i], self.facts(sh, x)[i], lambda s1, pv, l=l, i=i: self.facts(s1, cur(l, s1, pv))[i]))
        return out

    def settle(self, eng, st, sh, phis, backs, holds): pass


class LineWorld(ProgWorld):
    def __init__(self, T):
        ProgWorld.__init__(self, T)

    def cut_hook(self, eng, st, key, phis): return LineLoop(self, eng)

    def make(self, eng):
        st = State()
        self.S = self.new(eng, st, 'src', 'source_t')
        self.ch, self.n = buf(st, 'text')
        eng.bound(st, self.n, 1 << 30)
        eng.trusted.add('texts are shorter than 2^30 characters')
        for t in (self.n, P): eng.inst(st, t)
        self.doff, self.loff = self.off('source_t', '_data'), self.off('source_t', '_lines')
        self.foff = self.off('source_t', '_filename')
        st.wr('src').cells[self.doff] = (8, RP('text'))
        r = Reg('lines', 'lines', 'seq')
        r.es, r.n = 8, z3.BitVec('lines.n', 64)
        r.f[0, 8] = Fun(lambda i: z3.Function('lines.at', B64, B64)(bv(i, 64)))

        def unwrap(e, s, v):
            if isinstance(v, RP) and v.r == 'text' and is_c(v.off) and v.off == 0: return bv(v.idx, 64)
            raise Undecided('a line outside of the text')
        r.meta = {'wrap': lambda e, s, v, p: v if isinstance(v, Ptr) else RP('text', v), 'unwrap': unwrap}
        st.regs['lines'] = r
        self.q = 'lines'
        st.wr('src').objs[self.loff] = Vec('lines', PTRV)
        for c in self.define(z3.BitVecVal(0, 64))[:1]: eng.assume(st, c)
        return st

    def nl(self, i): return z3.And(z3.ULT(i, self.n), self.ch(i) == 10)

    def define(self, t): return [CNT(z3.BitVecVal(0, 64)) == 0, CNT(t + 1) == CNT(t) + z3.If(self.nl(t), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))]

    def line(self, s):
        f = s.regs[self.q].f[0, 8]
        return lambda i: bv(f.read(i if is_c(i) else simp(i)), 64)


def t_lines():
    nm = 'lines'

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        f, n = w.line(s), bv(s.regs['lines'].n, 64)
        eng.prove(s, n == CNT(w.n) + 1, nm + ': one more than there are line ends')
        eng.prove(s, f(0) == 0, nm + ': the first line starts the text')
        eng.prove(s, z3.Implies(w.nl(P), f(CNT(P) + 1) == P + 1), nm + ': every line end starts the next line')
        d = s.regs['src'].cells[w.doff][1]
        eng.prove(s, isinstance(d, RP) and d.r == 'text' and is_c(d.idx) and d.idx == 0, nm + ': the text stays')
    return Task('source:lines', lambda T, setup: run(T, setup, LineWorld(T), r'^nano::source_t::_gen_lines\(', lambda w, eng, st: [w.S], post), info={'native': ('paths', 'files')})


def t_get_line():
    nm = 'get line'
    num = z3.BitVec('arg.num', 32)

    class W(LineWorld):
        def make(self, eng):
            st = LineWorld.make(self, eng)
            r = Reg('out', 'out', 'cells')
            r.meta = {}
            r.objs[0] = sv_lit(b'')
            st.regs['out'] = r
            n, f = bv(st.regs['lines'].n, 64), self.line(st)
            eng.assume(st, z3.And(num != 0, z3.UGE(n, 1), z3.ULT(n, 1 << 31)))
            i = z3.ZeroExt(32, num) - 1
            for x in (i, i + 1): eng.assume(st, z3.Implies(z3.ULT(x, n), z3.ULE(f(x), self.n)))
            eng.assume(st, z3.Implies(z3.ULT(i + 1, n), z3.ULT(f(i), f(i + 1))))
            eng.trusted.add('lines are asked for by a number from 1 (asserted), of a text that was loaded (source:lines)')
            return st

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        n, f, i = bv(s.regs['lines'].n, 64), w.line(s), z3.ZeroExt(32, num) - 1
        ok = z3.ULT(i, n)
        eng.prove(s, tobool(v) == ok, nm + ': tells whether there is such a line')
        sv = get_sv(eng, s, RP('out'))
        end = z3.If(i + 1 == n, w.n, f(i + 1))
        eng.prove(s, z3.Implies(ok, bv(sv.n, 64) == end - f(i)), nm + ': as long as the line')
        eng.prove(s, z3.Implies(z3.And(ok, z3.ULT(J, end - f(i))), bv(sv.fun.read(J), 8) == w.ch(f(i) + J)), nm + ': the characters of the line')
    return Task('source:get line', lambda T, setup: run(T, setup, W(T), r'^nano::source_t::get_line\(', lambda w, eng, st: [w.S, num, RP('out')], post), info={'native': ('paths', 'files')})


# ------------------------------------------------------------ reading a file, keeping a text
def fresh(eng, st, nm, n):
    r = eng.new_reg(st, nm, 'seq')
    f = z3.Function('%s.%d' % (nm, eng.nreg), B64, B8)
    r.es, r.n, r.meta = 1, n, {}
    r.f[0, 1] = Fun(lambda i: f(bv(i, 64)))
    return RP(r.id)


class TextWorld(ProgWorld):
    """a source which may hold a text already; file_t::load by its contract, _gen_lines by its contract (source:lines)"""

    def __init__(self, T):
        ProgWorld.__init__(self, T)
        C = re.compile
        self.contracts = [(C(r'^operator new\[\]\(unsigned long\)$'), self.c_new), (C(r'^operator new\[\]\(unsigned long, std::nothrow'), self.c_newnt),
                          (C(r'^operator delete(\[\])?\(void\*'), self.c_delete), (C(r'^nano::source_t::_gen_lines\('), self.c_lines)]

    def c_new(self, eng, st, a, ins):
        eng.trusted.add('operator new[] does not fail')
        return fresh(eng, st, 'fresh', simp(bv(a[0], 64)))

    def c_newnt(self, eng, st, a, ins):
        return MaybeP(eng.symb('mem'), fresh(eng, st, 'fresh', simp(bv(a[0], 64))))

    def c_delete(self, eng, st, a, ins):
        p = a[0].p if isinstance(a[0], MaybeP) else a[0]
        if isinstance(p, RP): st.regs.pop(p.r, None)
        return None

    def c_lines(self, eng, st, a, ins):
        """_gen_lines: needs a terminated text"""
        p = eng.load(st, RP('src', 0, self.doff), PTR)
        ok = isinstance(p, RP) and is_c(p.idx) and p.idx == 0 and isinstance(a[0], RP) and a[0].r == 'src'
        eng.prove(st, ok, 'the lines of the text kept')
        if ok:
            r = st.regs[p.r]
            n = simp(bv(r.n, 64) - 1)
            eng.prove(st, z3.And(bv(r.n, 64) != 0, bv(r.f[0, 1].read(n), 8) == 0), 'the text kept is terminated')
        st.log.append(('lines', p.r if ok else None))
        return None

    def make(self, eng):
        st = State()
        self.S = self.new(eng, st, 'src', 'source_t')
        self.doff, self.loff, self.foff = self.off('source_t', '_data'), self.off('source_t', '_lines'), self.off('source_t', '_filename')
        old = Reg('old', 'old', 'seq')
        old.es, old.n, old.meta = 1, z3.BitVec('old.n', 64), {}
        st.regs['old'] = old
        st.wr('src').cells[self.doff] = (8, MaybeP(z3.Bool('has.text'), RP('old')))
        self.ch, self.n = buf(st, 'text')
        eng.bound(st, self.n, 1 << 30)
        eng.trusted.add('texts are shorter than 2^30 characters')
        eng.inst(st, self.n)
        eng.inst(st, J)
        return st


def kept(w, eng, s, ch, n, nm):
    p = eng.load(s, RP('src', 0, w.doff), PTR)
    ok = isinstance(p, RP) and is_c(p.idx) and p.idx == 0 and p.r not in ('old', 'text')
    eng.prove(s, ok, nm + ': the text is kept')
    if not ok: return
    r = s.regs[p.r]
    eng.prove(s, bv(r.n, 64) == n + 1, nm + ': all of it')
    rd = lambda i: bv(r.f[0, 1].read(i), 8)
    eng.prove(s, z3.Implies(z3.ULT(J, n), rd(J) == ch(J)), nm + ': as it is')
    eng.prove(s, rd(simp(n)) == 0, nm + ': with its terminator')
    eng.prove(s, [x for x in s.log if x[0] == 'lines'] == [('lines', p.r)], nm + ': its lines are found')


def t_from_string():
    nm = 'text from a string'

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        t = tobool(v)
        eng.prove(s, t == (w.n != 0), nm + ': refused only when it is empty')
        if must(eng, t): kept(w, eng, s, w.ch, w.n, nm)
    return Task('source:from string', lambda T, setup: run(T, setup, TextWorld(T), r'^nano::source_t::load_from_string\(', lambda w, eng, st: [w.S, RP('text')], post), info={'native': ('paths', 'files')})


def t_from_file():
    nm = 'text from a file'

    class W(TextWorld):
        def __init__(self, T):
            TextWorld.__init__(self, T)
            self.contracts += [(re.compile(r'^file_t::load\('), self.c_load)]
            self.fn = z3.BitVec('file.size', 64)
            self.fch = z3.Function('file.ch', B64, B8)
            self.ok = z3.Bool('can.read')

        def make(self, eng):
            st = TextWorld.make(self, eng)
            self.text_arg(st, 'path')
            r = Reg('name', 'name', 'seq')
            self.pch, self.pn = buf(st, 'name')
            eng.bound(st, self.pn, 1 << 30)
            eng.inst(st, self.pn)
            return st

        def c_load(self, eng, st, a, ins):
            """file_t::load: all bytes of the file, or nothing (proved by source:file)"""
            eng.prove(st, isinstance(a[1], RP) and a[1].r == 'name' and is_c(a[1].idx) and a[1].idx == 0, 'reads the file asked for')
            eng.assume(st, z3.And(self.fn != 0, z3.ULT(self.fn, 1 << 30)))
            p = fresh(eng, st, 'content', self.fn)
            st.regs[p.r].f[0, 1] = Fun(lambda i: self.fch(bv(i, 64)))
            o = a[0]
            eng.store(st, RP(o.r, o.idx, o.off), PTR, MaybeP(self.ok, p))
            sz = eng.sym('size', 64)
            eng.assume(st, z3.Implies(self.ok, sz == self.fn))
            eng.store(st, RP(o.r, o.idx, o.off + 8), INT(64), sz)
            return self.ok

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        t = tobool(v)
        eng.prove(s, t == w.ok, nm + ': refused only when it cannot be read')
        if must(eng, t):
            kept(w, eng, s, w.fch, w.fn, nm)
            sv = get_sv(eng, s, RP('src', 0, w.foff))
            eng.prove(s, bv(sv.n, 64) == w.pn, nm + ': known by its path')
            eng.prove(s, z3.Implies(z3.ULT(J, w.pn), bv(sv.fun.read(J), 8) == w.pch(J)), nm + ': known by its path')
    return Task('source:from file', lambda T, setup: run(T, setup, W(T), r'^nano::source_t::load_from_file\(', lambda w, eng, st: [w.S, RP('name')], post), info={'native': ('paths', 'files')})


def t_file():
    nm = 'file'
    NOT, OPEN, SHUT = 0, 1, 2

    class W(TextWorld):
        def __init__(self, T):
            TextWorld.__init__(self, T)
            C = re.compile
            self.contracts += [(C(r'^fopen$'), self.c_open), (C(r'^fclose$'), self.c_close), (C(r'^fseek$'), self.c_seek), (C(r'^ftell$'), self.c_tell), (C(r'^fread$'), self.c_read)]
            self.size, self.fch = z3.BitVec('file.size', 64), z3.Function('file.ch', B64, B8)
            self.opens, self.whole = z3.Bool('can.open'), z3.Bool('can.read')

        def make(self, eng):
            st = TextWorld.make(self, eng)
            r = Reg('this', 'this', 'cells')
            r.meta = {}
            r.cells = {0: (8, MaybeP(z3.Bool('has.text'), RP('old'))), 8: (8, z3.BitVec('old.size', 64))}
            st.regs['this'] = r
            st.ghost.update(io=NOT, end=False)
            return st

        def c_open(self, eng, st, a, ins):
            eng.prove(st, isinstance(a[0], RP) and a[0].r == 'text' and is_c(a[0].idx) and a[0].idx == 0, nm + ': the file asked for is opened')
            if st.ghost['io'] != NOT: raise Undecided('a file opened again')
            st.ghost['io'] = OPEN
            r = eng.new_reg(st, 'FILE', 'cells')
            r.meta = {}
            return MaybeP(self.opens, RP(r.id))

        def live(self, eng, st): eng.prove(st, z3.And(z3.BoolVal(st.ghost['io'] == OPEN), self.opens), nm + ': only an open file is used')

        def c_close(self, eng, st, a, ins):
            self.live(eng, st)
            st.ghost['io'] = SHUT
            return eng.sym('shut', 32)

        def c_seek(self, eng, st, a, ins):
            self.live(eng, st)
            if not (is_c(a[1]) and a[1] == 0 and is_c(a[2]) and a[2] in (0, 2)): raise Undecided('a position inside the file')
            st.ghost['end'] = is_c(a[2]) and a[2] == 2
            return 0

        def c_tell(self, eng, st, a, ins):
            self.live(eng, st)
            return self.size if st.ghost['end'] else 0

        def c_read(self, eng, st, a, ins):
            """fread: the bytes of the file, or fewer of them"""
            self.live(eng, st)
            eng.prove(st, not st.ghost['end'], nm + ': is read from the start')
            n = simp(bv(a[1], 64) * bv(a[2], 64))
            p = a[0]
            if isinstance(p, MaybeP):
                eng.trap(st, p.c, 'null-deref')
                p = p.p
            if not (isinstance(p, RP) and p.r in st.regs and st.regs[p.r].kind == 'seq'): raise Undecided('fread into %r' % (p,))
            r = st.wr(p.r)
            eng.trap(st, z3.ULE(n, bv(r.n, 64)), 'fread writes out of bounds')
            if not must(eng, bv(a[1], 64) == 1): raise Undecided('blocks are read')
            got = eng.sym('got', 64)
            eng.assume(st, z3.And(z3.ULE(got, n), (got == n) == self.whole))
            r.f[0, 1] = Fun(lambda i: self.fch(bv(i, 64)))
            return got

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        t = tobool(v)
        if s.ghost['io'] == OPEN: eng.prove(s, z3.Not(w.opens), nm + ': is closed again')
        p = s.regs['this'].cells[0][1]
        eng.prove(s, z3.Implies(t, z3.And(w.opens, w.size != 0)), nm + ': an empty file or none is refused')
        mem = [z3.Bool(x) for x in {d for c in s.pc for d in bools(c)} if x.startswith('mem')]
        eng.prove(s, z3.Implies(z3.And(w.opens, w.size != 0, w.whole, *mem), t), nm + ': any other is accepted')
        if must(eng, z3.Not(t)): return
        eng.prove(s, z3.Implies(t, w.whole), nm + ': all of it is read')
        q = p.p if isinstance(p, MaybeP) else p
        eng.prove(s, z3.Implies(t, z3.And(p.c if isinstance(p, MaybeP) else z3.BoolVal(True), z3.BoolVal(isinstance(q, RP) and q.r in s.regs))), nm + ': its bytes are kept')
        if not isinstance(q, RP) or q.r not in s.regs: return
        r = s.regs[q.r]
        eng.prove(s, z3.Implies(t, z3.And(bv(r.n, 64) == w.size, bv(s.regs['this'].cells[8][1], 64) == w.size)), nm + ': all of it is kept')
        if (0, 1) in r.f: eng.prove(s, z3.Implies(z3.And(t, z3.ULT(J, w.size)), bv(r.f[0, 1].read(J), 8) == w.fch(J)), nm + ': as it is')
        else: eng.prove(s, z3.Not(t), nm + ': as it is')
    return Task('source:file', lambda T, setup: run(T, setup, W(T), r'^file_t::load\(', lambda w, eng, st: [RP('this'), RP('text')], post), info={'native': ('paths', 'files')})


def bools(e):
    if z3.is_const(e) and z3.is_bool(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: return [e.decl().name()]
    return [x for c in e.children() for x in bools(c)]


def line_tasks(): return [t_lines(), t_get_line(), t_from_string(), t_from_file(), t_file()]
