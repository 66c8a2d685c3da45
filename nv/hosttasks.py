"""Sources, program tables, build phases: what the host sees of a program (C17)."""
import re
import z3
from .sx import *
from .sx import Reg
from .ast import *
from .ast import AstWorld, must, FUN, VAR, BLK
from .vtasks import WLoop, PassWorld, visited_once, NP, VT_OF
from .models import Vec, SV, setup_seq, the_obj, str_eq, get_sv, sv_of_sid, set_obj, init_sv, sv_lit, STR_T, cstr
from .ir import Unsupported, PTR, INT
from .task import Task
from .vmtasks import find1

FN, PG, ID, SC = 'function_t', 'program_t', 'identifier_t', 'program_t::syscall_entry_t'
VT = {'locals_': 'nano::identifier_t', 'args_': 'nano::identifier_t', 'syscalls_': 'nano::program_t::syscall_entry_t', 'functions_': 'nano::function_t', 'strings_': STR_T, 'code_': 'unsigned char', 'globals_': 'nano::identifier_t'}
J = z3.BitVec('any.elem', 64)


class Scan:
    """a loop over the elements of a list: k turns so far; the task states what holds after k turns"""
    events = True
    writes = True

    def __init__(self, w, eng, st, key):
        self.w, self.key = w, key
        self.k = 'ghost.scan.%s.%s.%d' % (key[0], key[1], st.ghost.get('nloop', 0))
        st.ghost['nloop'] = st.ghost.get('nloop', 0) + 1
        r = Reg(self.k, self.k, 'cells')
        r.cells = {0: (8, z3.BitVecVal(0, 64)), 8: (4, z3.BitVecVal(0, 32)), 16: (8, z3.BitVecVal(0, 64)), 24: (1, z3.BitVecVal(0, 8))}
        r.meta = {}
        st.regs[self.k] = r
        self.nlog = len(st.log)

    def cell(self, s, o, w): return bv(s.regs[self.k].cells[o][1], w)

    def havoc(self, eng, st, sh):
        sh.log.append(('loop', self.k))
        return ()

    def facts(self, eng, s):
        k, k32 = self.cell(s, 0, 64), self.cell(s, 8, 32)
        return [z3.And(k == z3.SignExt(32, k32), k32 >= 0)] + self.w.after(eng, s, k, self.cell(s, 16, 64), self.cell(s, 24, 8) != 0)

    def cands(self, eng, st, sh, hv, cur):
        n = len(self.facts(eng, st))
        return [('scan', self.facts(eng, st)[i], self.facts(eng, sh)[i], lambda s1, pv, i=i: self.facts(eng, s1)[i]) for i in range(n)]

    def settle(self, eng, st, sh, phis, backs, holds): pass

    def back(self, eng, s, collect):
        k = self.cell(s, 0, 64)
        m = self.w.match(eng, s, k)
        g = s.wr(self.k)
        g.cells[16] = (8, z3.If(m, k, self.cell(s, 16, 64)))
        g.cells[24] = (1, z3.If(m, z3.BitVecVal(1, 8), self.cell(s, 24, 8)))
        g.cells[0] = (8, simp(k + 1))
        g.cells[8] = (4, simp(self.cell(s, 8, 32) + 1))


class ProgWorld(AstWorld):
    """a program with arbitrary tables"""
    scan = False

    def lazy_obj(self, eng, st, r, off, kind, T=None):
        v = AstWorld.lazy_obj(self, eng, st, r, off, kind, T)
        if kind == 'vector' and T and T.startswith('nano::') and not T.endswith('*'):
            q = st.regs[v.seq]
            if (0, 'string') not in q.f: q.f[0, 'string'] = Fun(lambda i: sv_of_sid(z3.Function(v.seq + '.name.sid', B64, B64)(bv(i, 64))))
            if T.endswith('syscall_entry_t'):
                q.meta = dict(q.meta, unwrap=self.unhost, wrap=lambda e, t, x, p: x if isinstance(x, Ptr) else HostFn(x, 'syscall'))
        return v

    def unhost(self, eng, st, v):
        if isinstance(v, Null): return z3.BitVecVal(0, 64)
        if isinstance(v, HostFn): return v.t
        raise Undecided('host function %r' % v)

    def cut_hook(self, eng, st, key, phis): return Scan(self, eng, st, key) if self.scan else None

    def make(self, eng):
        st = State()
        self.P = self.new(eng, st, 'prog', PG)
        return st

    def seq(self, eng, st, f): return the_obj(eng, st, RP('prog', 0, self.off(PG, f)), 'vector', VT[f]).seq

    def text_arg(self, st, nm):
        r = Reg(nm, nm, 'cells')
        r.meta = {}
        r.objs[0] = sv_of_sid(z3.BitVec(nm + '.sid', 64))
        st.regs[nm] = r
        return RP(nm)

    def nm(self, eng, s, f, i): return s.regs[self.seq(eng, s, f)].f[0, 'string'].read(bv(i, 64)).sid

    def match(self, eng, s, k): return z3.BoolVal(False)
    def after(self, eng, s, k, w, f): return []


def run(T, setup, w, fn, args, post, pre=None):
    eng = setup(w.engine())
    st = w.make(eng)
    a = args(w, eng, st)
    if pre: pre(w, eng, st)
    w.st0 = st.fork()
    eng.canary = False

    def end(s, k, v):
        if k not in ('ret', 'throw'): return
        if not eng.canary and eng.check() == z3.sat: eng.canary = True
        post(w, eng, s, k, v)
    eng.on_end = end
    eng.start(st, find1(T, fn), a)
    eng.explore(st)
    return eng


def same_lists(w, eng, s, but, nm):
    """tables other than these are as before"""
    for f in ('globals_', 'syscalls_', 'functions_', 'code_', 'strings_'):
        if f in but: continue
        q = w.seq(eng, s, f)
        eng.prove(s, bv(s.regs[q].n, 64) == z3.BitVec('prog.%s.n' % f, 64), '%s: %s is left alone' % (nm, f))
        o = w.st0.regs.get(q)
        for key, fun in s.regs[q].f.items():
            f0 = o.f.get(key) if o is not None else None
            eng.prove(s, not fun.layers if f0 is None else f0 is fun or f0.base is fun.base and len(f0.layers) == len(fun.layers), '%s: %s is left alone' % (nm, f))


def t_findname(const):
    nm = 'function by name'

    def post(w, eng, s, k, v):
        q = w.seq(eng, s, 'functions_')
        n, me = bv(s.regs[q].n, 64), z3.BitVec('name.sid', 64)
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        if isinstance(v, MaybeP) and must(eng, v.c): v = v.p
        if isinstance(v, RP):
            eng.prove(s, v.r == q and v.off == 0, nm + ': is one of the functions')
            i = bv(v.idx, 64)
            eng.prove(s, z3.And(z3.ULT(i, n), w.nm(eng, s, 'functions_', i) == me), nm + ': has that name')
        elif isinstance(v, Null): eng.prove(s, z3.Implies(z3.ULT(J, n), w.nm(eng, s, 'functions_', J) != me), nm + ': null only when none has that name')
        else: eng.prove(s, False, nm + ': a function or null')
        same_lists(w, eng, s, (), nm)

    class W(ProgWorld):
        scan = True
        def match(self, eng, s, k): return self.nm(eng, s, 'functions_', k) == z3.BitVec('name.sid', 64)
        def after(self, eng, s, k, w, f): return [z3.Implies(z3.ULT(J, k), self.nm(eng, s, 'functions_', J) != z3.BitVec('name.sid', 64))]
    return Task('table:function_find(name)%s' % (' const' if const else ''), lambda T, setup: run(T, setup, W(T), r'^nano::program_t::function_find\(std::__cxx11::basic_string<.*const&\)%s$' % (' const' if const else ''),
                lambda w, eng, st: [w.P, w.text_arg(st, 'name')], post), info={'native': ('tables', 'host')})


def t_resolve():
    nm = 'resolve'
    ME, F = z3.BitVec('name.sid', 64), z3.BitVec('host.fn', 64)

    class W(ProgWorld):
        scan = True
        def calls(self, eng, s, i):
            q = s.regs[self.seq(eng, s, 'syscalls_')]
            v = eng.seq_field(s, q, self.off(SC, 'call_'), 8, PTR).read(bv(i, 64))
            return self.unhost(eng, s, v) if isinstance(v, Ptr) else v
        def old(self, i): return z3.Function('prog.syscalls_.f%d_8' % self.off(SC, 'call_'), B64, B64)(i)
        def match(self, eng, s, k): return self.nm(eng, s, 'syscalls_', k) == ME

        def after(self, eng, s, k, w, f):
            m = self.match(eng, s, J)
            return [self.calls(eng, s, J) == z3.If(z3.And(z3.ULT(J, k), m), F, self.old(J)), z3.Implies(z3.And(z3.ULT(J, k), m), f), z3.Implies(f, z3.And(z3.ULT(w, k), self.match(eng, s, w)))]

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        n = z3.BitVec('prog.syscalls_.n', 64)
        eng.prove(s, bv(s.regs[w.seq(eng, s, 'syscalls_')].n, 64) == n, nm + ': adds nothing')
        m = w.match(eng, s, J)
        eng.prove(s, z3.Implies(z3.ULT(J, n), w.calls(eng, s, J) == z3.If(m, F, w.old(J))), nm + ': binds exactly the call of that name')
        eng.prove(s, w.nm(eng, s, 'syscalls_', J) == z3.Function('prog.syscalls_.name.sid', B64, B64)(J), nm + ': names stay')
        eng.prove(s, z3.Implies(z3.And(z3.ULT(J, n), m), tobool(v)), nm + ': reports a call it found')
        lp = [x for x in s.log if x[0] == 'loop']
        wit = z3.BoolVal(False)
        if lp:
            g = s.regs[lp[-1][1]]
            wit = z3.And(z3.ULT(bv(g.cells[16][1], 64), n), w.match(eng, s, bv(g.cells[16][1], 64)))
        hit = [z3.And(z3.ULT(z3.BitVecVal(i, 64), n), w.match(eng, s, z3.BitVecVal(i, 64))) for i in range(3)]
        g0 = [bv(s.regs[x[1]].cells[0][1], 64) for x in lp]
        hit += [z3.And(z3.ULT(x, n), w.match(eng, s, x)) for x in g0]
        eng.prove(s, z3.Implies(tobool(v), z3.Or(wit, *hit)), nm + ': reports only a call it found')
        same_lists(w, eng, s, ('syscalls_',), nm)
    return Task('table:syscall_resolve', lambda T, setup: run(T, setup, W(T), r'^nano::program_t::syscall_resolve\(', lambda w, eng, st: [w.P, w.text_arg(st, 'name'), HostFn(F, 'syscall')], post), info={'native': ('tables', 'host')})


class BuildWorld(ProgWorld):
    def make(self, eng):
        st = ProgWorld.make(self, eng)
        self.B = self.new(eng, st, 'builder', 'program_builder_t')
        self.links['program_builder_t', 'program_'] = self.P
        self.links['program_builder_t', 'data_'] = RP('prog', 0, self.off(PG, 'code_'))
        return st


def t_addsyscall():
    nm = 'add_syscall'
    ME = z3.BitVec('name.sid', 64)

    class W(BuildWorld):
        scan = True
        def match(self, eng, s, k): return self.nm(eng, s, 'syscalls_', k) == ME
        def after(self, eng, s, k, w, f): return [z3.Implies(z3.ULT(J, k), self.nm(eng, s, 'syscalls_', J) != ME)]

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        q = w.seq(eng, s, 'syscalls_')
        n, n0 = bv(s.regs[q].n, 64), z3.BitVec('prog.syscalls_.n', 64)
        i = z3.SignExt(32, bv(v, 32))
        old = z3.Function('prog.syscalls_.name.sid', B64, B64)
        eng.prove(s, z3.And(z3.ULT(i, n), w.nm(eng, s, 'syscalls_', i) == ME), nm + ': gives the place of that name')
        eng.prove(s, z3.Or(n == n0, z3.And(n == n0 + 1, i == n0)), nm + ': at most one new entry')
        eng.prove(s, z3.Implies(z3.And(n == n0 + 1, z3.ULT(J, n0)), old(J) != ME), nm + ': each name is listed once')
        eng.prove(s, z3.Implies(z3.ULT(J, n0), w.nm(eng, s, 'syscalls_', J) == old(J)), nm + ': earlier entries stay')
        if must(eng, n == n0 + 1):
            p = eng.load(s, RP(q, n0, w.off(SC, 'call_')), PTR)
            eng.prove(s, isinstance(p, Null) or isinstance(p, HostFn) and p.t == 0, nm + ': a new entry is unresolved')
        same_lists(w, eng, s, ('syscalls_',), nm)
    return Task('table:add_syscall', lambda T, setup: run(T, setup, W(T), r'^nano::program_builder_t::add_syscall\(', lambda w, eng, st: [w.B, w.text_arg(st, 'name')], post), info={'native': ('tables', 'host')})


def t_addglobal():
    nm = 'add_global'
    ME, O = z3.BitVec('name.sid', 64), z3.BitVec('offset', 32)

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        q = w.seq(eng, s, 'globals_')
        n, n0 = bv(s.regs[q].n, 64), z3.BitVec('prog.globals_.n', 64)
        eng.prove(s, n == n0 + 1, nm + ': one new entry')
        eng.prove(s, z3.And(w.nm(eng, s, 'globals_', n0) == ME, bv(eng.load(s, RP(q, n0, w.off(ID, 'offset_')), INT(32)), 32) == O), nm + ': with its name and slot')
        eng.prove(s, z3.Implies(z3.ULT(J, n0), z3.And(w.nm(eng, s, 'globals_', J) == z3.Function('prog.globals_.name.sid', B64, B64)(J),
                  bv(eng.seq_field(s, s.regs[q], w.off(ID, 'offset_'), 4, INT(32)).read(J), 32) == z3.Function('prog.globals_.f%d_4' % w.off(ID, 'offset_'), B64, B32)(J))), nm + ': earlier entries stay')
        same_lists(w, eng, s, ('globals_',), nm)
    return Task('table:add_global', lambda T, setup: run(T, setup, BuildWorld(T), r'^nano::program_builder_t::add_global\(', lambda w, eng, st: [w.B, w.text_arg(st, 'name'), O], post), info={'native': ('tables', 'host')})


def t_progreset():
    nm = 'program reset'

    class W(ProgWorld):
        def __init__(self, T):
            ProgWorld.__init__(self, T)
            self.contracts = [(re.compile(r'^std::map<int, nano::line_t.*>::clear\('), self.c_clear)]

        def c_clear(self, eng, st, a, ins):
            """std::map::clear"""
            eng.prove(st, isinstance(a[0], RP) and a[0].r == 'prog' and a[0].off == self.off(PG, 'line_table_'), nm + ': clears its own line table')
            st.ghost['lines'] = True

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        for f in ('globals_', 'syscalls_', 'functions_', 'code_', 'strings_'):
            eng.prove(s, bv(s.regs[w.seq(eng, s, f)].n, 64) == 0, '%s: %s is empty' % (nm, f))
        eng.prove(s, bool(s.ghost.get('lines')), nm + ': the line table is empty')
    return Task('table:reset', lambda T, setup: run(T, setup, W(T), r'^nano::program_t::reset\(\)', lambda w, eng, st: [w.P], post), info={'native': ('tables', 'host')})


def table_tasks(): return [t_findname(False), t_findname(True), t_resolve(), t_addsyscall(), t_addglobal(), t_progreset()]


# ------------------------------------------------------------ paths and sources
LOWER = z3.Function('tolower', B32, B32)


def c_lower(eng, st, a, ins):
    """tolower: a function of the character that keeps the terminator apart"""
    c = bv(a[0], 32)
    eng.assume(st, (LOWER(c) == 0) == (c == 0))
    eng.trusted.add('tolower maps only the terminator to zero')
    return LOWER(c)


def buf(st, nm, chars=None, n=None):
    """a zero terminated text; (chars, length)"""
    r = Reg(nm, nm, 'seq')
    n = z3.BitVec(nm + '.len', 64) if n is None else n
    f = z3.Function(nm + '.ch', B64, z3.BitVecSort(8))
    r.es, r.n, r.meta = 1, simp(n + 1), {}
    r.f[0, 1] = Fun(lambda i: f(bv(i, 64)))
    st.regs[nm] = r
    st.quant.append(lambda i: z3.And(z3.Implies(z3.ULT(bv(i, 64), n), f(bv(i, 64)) != 0), f(n) == 0))
    return f, n


def samech(a, b):
    s = lambda x: z3.SignExt(24, x)
    return z3.Or(LOWER(s(a)) == LOWER(s(b)), z3.And(a == ord('/'), b == ord('\\')), z3.And(a == ord('\\'), b == ord('/')))


def t_pathcmp():
    nm = 'path compare'

    class W(ProgWorld):
        scan = True
        def make(self, eng):
            st = State()
            self.x, self.nx = buf(st, 'x')
            self.y, self.ny = buf(st, 'y')
            for n in (self.nx, self.ny):
                eng.bound(st, n, 1 << 30)
                eng.inst(st, n)
            eng.trusted.add('paths are shorter than 2^30 characters')
            return st

        def __init__(self, T):
            ProgWorld.__init__(self, T)
            self.contracts = [(re.compile(r'^tolower$'), c_lower)]

        def after(self, eng, s, k, w, f):
            return [z3.ULE(k, self.nx), z3.ULE(k, self.ny), z3.Implies(z3.ULT(J, k), samech(self.x(J), self.y(J)))]

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        t = tobool(v)
        ks = [bv(s.regs[x[1]].cells[0][1], 64) for x in s.log if x[0] == 'loop'] + [z3.BitVecVal(0, 64)]
        ks += {t.decl().name(): t for c in s.pc for t in consts(c) if t.decl().name().startswith('iter!') and t.size() == 64}.values()
        for i in ks: eng.inst(s, i)
        eng.prove(s, z3.Implies(t, z3.And(w.nx == w.ny, z3.Implies(z3.ULT(J, w.nx), samech(w.x(J), w.y(J))))), nm + ': equal only when every character agrees')
        eng.prove(s, z3.Implies(z3.Not(t), z3.Or(w.nx != w.ny, *[z3.And(z3.ULT(i, w.nx), z3.Not(samech(w.x(i), w.y(i)))) for i in ks])), nm + ': different only when some character differs')
    return Task('source:path compare', lambda T, setup: run(T, setup, W(T), r'^\(anonymous namespace\)::path_cmp\(|^path_cmp\(', lambda w, eng, st: [RP('x'), RP('y')], post), info={'native': ('paths', 'files',)})


class SrcWorld(ProgWorld):
    scan = True

    def __init__(self, T):
        ProgWorld.__init__(self, T)
        self.tree['source_manager_t', 'sources_'] = ('source_t', True)
        self.contracts = [(re.compile(r'^\(anonymous namespace\)::path_cmp\(|^path_cmp\('), self.c_cmp), (re.compile(r'^nano::source_t::load_from_(file|string)\('), self.c_load),
                          (re.compile(r'^operator delete(\[\])?\(void\*'), lambda eng, st, a, ins: None)]
        self.same = z3.Function('same.path', B64, z3.BoolSort())

    def make(self, eng):
        st = State()
        self.M = self.new(eng, st, 'mgr', 'source_manager_t')
        buf(st, 'path')
        eng.nonul = lambda t: True
        return st

    def list(self, eng, st): return the_obj(eng, st, RP('mgr', 0, self.off('source_manager_t', 'sources_')), 'vector', 'std::unique_ptr<nano::source_t, std::default_delete<nano::source_t> >').seq

    def c_cmp(self, eng, st, a, ins):
        """path_cmp: proved by source:path compare"""
        ps = [p for p in a if isinstance(p, RP) and p.r == 'path']
        os = [p for p in a if isinstance(p, RP) and p.r != 'path']
        if len(ps) != 1 or len(os) != 1 or not is_c(ps[0].idx) or ps[0].idx != 0: raise Undecided('path_cmp of %r' % (a,))
        return self.same(cstr(eng, st, os[0]).sid)

    def c_load(self, eng, st, a, ins):
        """source_t::load_from_file/load_from_string: proved by source:from file and source:from string"""
        m = re.search(r'load_from_(file|string)', eng.m.dem(self.callee(eng, st, ins))).group(1)
        eng.prove(st, isinstance(a[1], RP) and a[1].r == 'path' and is_c(a[1].idx) and a[1].idx == 0, 'loads what was asked for')
        ok = z3.Bool('can load')
        st.log.append(('load', m, a[0].r))
        return ok

    def match(self, eng, s, k): return self.same(self.path_of(s, k))

    def path_of(self, s, k):
        t = z3.Function('mgr.sources_.f0_8', B64, B64)(bv(k, 64))
        return z3.Function('ast._filename.sid.64', B64, B64)(t)

    def after(self, eng, s, k, w, f): return [z3.Implies(z3.ULT(J, k), z3.Not(self.same(self.path_of(s, J))))]


def t_load(kind):
    nm = 'load from ' + kind

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        q = w.list(eng, s)
        n, n0 = bv(s.regs[q].n, 64), z3.BitVec('mgr.sources_.n', 64)
        ld = [x for x in s.log if x[0] == 'load']
        f = eng.seq_field(s, s.regs[q], 0, 8, PTR).read(J)
        eng.prove(s, z3.Implies(z3.ULT(J, n0), (w.unwrap(eng, s, f) if isinstance(f, Ptr) else f) == z3.Function('mgr.sources_.f0_8', B64, B64)(J)), nm + ': earlier sources stay')
        if not ld:
            eng.prove(s, kind == 'file', nm + ': loads it')
            ks = [bv(s.regs[x[1]].cells[0][1], 64) for x in s.log if x[0] == 'loop'] + [z3.BitVecVal(i, 64) for i in range(3)]
            eng.prove(s, z3.Or([z3.And(z3.ULT(i, n0), w.match(eng, s, i)) for i in ks]), nm + ': skipped only when it is there already')
            eng.prove(s, z3.And(tobool(v), n == n0), nm + ': a file that is there already is not added again')
            return
        eng.prove(s, len(ld) == 1 and ld[0][1] == kind, nm + ': loaded once')
        if kind == 'file': eng.prove(s, z3.Implies(z3.ULT(J, n0), z3.Not(w.match(eng, s, J))), nm + ': loaded only when it is not there')
        ok = z3.Bool('can load')
        eng.prove(s, tobool(v) == ok, nm + ': reports whether it could be loaded')
        eng.prove(s, n == z3.If(ok, n0 + 1, n0), nm + ': added exactly when it could be loaded')
        if must(eng, ok):
            p = eng.load(s, RP(q, n0), PTR)
            eng.prove(s, isinstance(p, RP) and p.r == ld[0][2], nm + ': what was loaded is added')
    fn = r'^nano::source_manager_t::load\(' if kind == 'file' else r'^nano::source_manager_t::load_from_string\('
    return Task('source:load ' + kind, lambda T, setup: run(T, setup, SrcWorld(T), fn, lambda w, eng, st: [w.M, RP('path')], post), info={'native': ('paths', 'files', 'host')})


def t_imported():
    nm = 'path of an import'

    class W(ProgWorld):
        def make(self, eng):
            st = State()
            self.M = self.new(eng, st, 'mgr', 'source_manager_t')
            self.S = self.new(eng, st, 'src', 'source_t')
            self.text_arg(st, 'path')
            self.d = z3.BitVec('dir.len', 64)
            eng.ghost_terms += [J, self.d, simp(self.d - 1)]
            return st

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        res, sv = get_sv(eng, s, RP('path')), sv_of_sid(z3.BitVec('src._filename.sid', 64))
        old = sv_of_sid(z3.BitVec('path.sid', 64))
        d, n = w.d, sv.n
        sl = lambda c: z3.Or(c == ord('/'), c == ord('\\'))
        pre = [z3.ULT(n, 1 << 30), z3.ULT(old.n, 1 << 30), z3.ULE(d, n), z3.Or(d == 0, sl(sv.fun.read(d - 1)))]
        # d is the length of the directory part: nothing behind it is a slash
        q = lambda i: z3.Implies(z3.And(z3.UGE(i, d), z3.ULT(i, n)), z3.Not(sl(sv.fun.read(i))))
        for c in pre: eng.assume(s, c)
        s.quant.append(q)
        for x in eng.ghost_terms: eng.assume(s, q(x))
        last = [z3.BitVec(x, 64) for x in {t.decl().name() for c in s.pc for t in consts(c) if t.decl().name().startswith('last!')}]
        for x in last: eng.assume(s, q(x))
        eng.prove(s, bv(res.n, 64) == d + old.n, nm + ': the directory of the importing file and the name')
        eng.prove(s, z3.Implies(z3.ULT(J, d), bv(res.fun.read(J), 8) == sv.fun.read(J)), nm + ': the directory comes first')
        eng.prove(s, z3.Implies(z3.ULT(J, old.n), bv(res.fun.read(simp(d + J)), 8) == old.fun.read(J)), nm + ': the name follows')
    return Task('source:import path', lambda T, setup: run(T, setup, W(T), r'^nano::source_manager_t::imported_path\(', lambda w, eng, st: [w.M, w.S, RP('path')], post), info={'native': ('paths', 'files',)})


def consts(e, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen: return []
    seen.add(e.get_id())
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: return [e]
    return [x for c in e.children() for x in consts(c, seen)]


def source_tasks():
    from .linetasks import line_tasks
    return [t_pathcmp(), t_load('file'), t_load('string'), t_imported()] + line_tasks()


# ------------------------------------------------------------ the compiler object
class NanoWorld(ProgWorld):
    scan = True

    def make(self, eng):
        st = State()
        self.N = self.new(eng, st, 'nano', 'nano_t')
        self.A = self.new(eng, st, 'ast', 'ast_t')
        self.links['nano_t', 'ast_'] = self.A
        return st

    def children(self, eng, s): return the_obj(eng, s, RP('ast', 0, self.off('ast_t', 'program') + self.off('ast_program_t', 'children')), 'vector', NP).seq


def t_register():
    nm = 'syscall_register'
    NUM = z3.BitVec('num_args', 32)

    class W(NanoWorld):
        def args_of(self, eng, s, r): return the_obj(eng, s, RP(r, 0, self.off(FUN, 'args')), 'vector', 'nano::ast_decl_var_t*').seq

        def after(self, eng, s, k, w, f):
            new = [x for x in s.regs if x.startswith('new.')]
            return [bv(s.regs[self.args_of(eng, s, x)].n, 64) == k for x in new] + [k <= z3.If(NUM < 0, z3.BitVecVal(0, 64), z3.SignExt(32, NUM))]

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        q = w.children(eng, s)
        n, n0 = bv(s.regs[q].n, 64), z3.BitVec(q + '.n', 64)
        eng.prove(s, n == n0 + 1, nm + ': one new declaration')
        p = eng.load(s, RP(q, n0), PTR)
        if not isinstance(p, RP): return eng.prove(s, False, nm + ': the new declaration is listed')
        ld = lambda f, t: eng.load(s, RP(p.r, 0, w.off(FUN, f)), t)
        eng.prove(s, bv(eng.load(s, RP(p.r, 0, w.off('ast_node_t', 'type')), INT(32)), 32) == w.E['ast_decl_func_e'], nm + ': declares a function')
        eng.prove(s, get_sv(eng, s, RP(p.r, 0, w.off(FUN, 'name'))).sid == z3.BitVec('name.sid', 64), nm + ': of that name')
        eng.prove(s, bv(ld('is_syscall', INT(8)), 8) == 1, nm + ': is a system call')
        eng.prove(s, (bv(ld('is_varargs', INT(8)), 8) != 0) == (NUM < 0), nm + ': any number of arguments exactly when the count is negative')
        eng.prove(s, bv(s.regs[w.args_of(eng, s, p.r)].n, 64) == z3.If(NUM < 0, z3.BitVecVal(0, 64), z3.SignExt(32, NUM)), nm + ': takes the given number of arguments')
        f = eng.seq_field(s, s.regs[q], 0, 8, PTR).read(J)
        eng.prove(s, z3.Implies(z3.ULT(J, n0), (w.unwrap(eng, s, f) if isinstance(f, Ptr) else f) == z3.Function(q + '.f0_8', B64, B64)(J)), nm + ': earlier declarations stay')
    return Task('host:syscall_register', lambda T, setup: run(T, setup, W(T), r'^nano::nano_t::syscall_register\(', lambda w, eng, st: [w.N, w.text_arg(st, 'name'), NUM], post), info={'native': ('tables', 'host')})


def t_build():
    """nano_t::build: every source, also those added while parsing, is lexed with its index and parsed, in order; then the phases; an error ends it"""
    nm = 'build'
    PH = ['run_sema', 'run_optimize', 'run_pre_codegen', 'codegen']

    class W(NanoWorld):
        scan = True

        def __init__(self, T):
            ProgWorld.__init__(self, T)
            self.tree['source_manager_t', 'sources_'] = ('source_t', True)
            self.contracts = [(re.compile(r'^nano::lexer_t::lexer_t\('), self.c_lexer), (re.compile(r'^nano::lexer_t::lex\('), self.c_lex), (re.compile(r'^nano::parser_t::parse\('), self.c_parse),
                              (re.compile(r'^nano::run_(sema|optimize|pre_codegen)\('), self.c_phase), (re.compile(r'^nano::codegen_t::run\('), self.c_codegen),
                              (re.compile(r'^nano::ast_t::gc\(\)'), self.c_gc), (re.compile(r'^__cxa_begin_catch$'), lambda eng, st, a, ins: self.new(eng, st, 'exc', 'error_t')),
                              (re.compile(r'^nano::source_t::data\(\)'), self.c_data)]

        def make(self, eng):
            st = NanoWorld.make(self, eng)
            self.M = self.new(eng, st, 'mgr', 'source_manager_t')
            self.ERR = self.new(eng, st, 'err', 'error_t')
            self.links['nano_t', 'parser_'] = self.new(eng, st, 'parser', 'parser_t')
            self.links['nano_t', 'codegen_'] = self.new(eng, st, 'codegen', 'codegen_t')
            self.tree['nano_t', 'lexer_'] = ('lexer_t', True)
            return st

        def list(self, eng, st): return the_obj(eng, st, RP('mgr', 0, self.off('source_manager_t', 'sources_')), 'vector', 'std::unique_ptr<nano::source_t, std::default_delete<nano::source_t> >').seq

        def c_data(self, eng, st, a, ins):
            """source_t::data"""
            el = st.regs[a[0].r].meta.get('elem')
            if el is None: raise Undecided('data of %r' % (a[0],))
            r = Reg('text:%s' % a[0].r, 'text', 'cells')
            r.meta = {'elem': el}
            st.regs[r.id] = r
            return RP(r.id)

        def c_lexer(self, eng, st, a, ins):
            """lexer_t::lexer_t"""
            eng.prove(st, isinstance(a[1], RP) and a[1].r == 'nano', nm + ': a lexer of this compiler')
            st.ghost['lexer'] = a[0].r
            st.regs[a[0].r].meta = dict(st.regs[a[0].r].meta, cls='lexer_t')

        def source_is(self, eng, st, i):
            """the current source (used by imports) is the one being read"""
            p = eng.load(st, RP('nano', 0, self.off('nano_t', 'source_')), PTR)
            p = p.p if isinstance(p, MaybeP) else p
            el = st.regs[p.r].meta.get('elem') if isinstance(p, RP) else None
            eng.prove(st, el is not None and bv(el[1], 64) == i, nm + ': imports are relative to the source being read')
            m = eng.load(st, RP('nano', 0, self.off('nano_t', 'sources_')), PTR)
            m = m.p if isinstance(m, MaybeP) else m
            eng.prove(st, isinstance(m, RP) and m.r == 'mgr', nm + ': imports are added to the given sources')

        def out(self, eng, st, what, ret):
            """returns, or throws an error"""
            n = st.ghost['nout'] = st.ghost.get('nout', 0) + 1
            c = z3.Bool('throws.%s.%d' % (what, n))

            def bad(s):
                s.log.append(('thrown', what))
                return Throw(ERR_TI, what)

            def good(s):
                v = ret(s)
                s.log.append(('done', what, v if v is not None else True))
                return v
            return [Alt(c, bad), Alt(z3.Not(c), good)]

        def c_lex(self, eng, st, a, ins):
            """lexer_t::lex (C13): tokens of that text, or an error"""
            eng.prove(st, isinstance(a[0], RP) and a[0].r == st.ghost.get('lexer'), nm + ': lexed by the new lexer')
            t = st.regs[a[1].r].meta.get('elem') if isinstance(a[1], RP) else None
            i = z3.SignExt(32, bv(a[2], 32))
            if t is None: raise Undecided('lex of %r' % (a[1],))
            eng.prove(st, z3.And(bv(t[1], 64) == i, i == self.turn(st)), nm + ': the text of every source is lexed, in order, with its number')
            return self.out(eng, st, 'lex', lambda s: z3.Bool('lex.ok.%d' % st.ghost['nout']))

        def turn(self, st):
            lp = [x for x in st.log if x[0] == 'loop']
            return bv(st.regs[lp[-1][1]].cells[0][1], 64) if lp else z3.BitVecVal(0, 64)

        def c_parse(self, eng, st, a, ins):
            """parser_t::parse (C12): declarations are added, imports are appended to the sources, or an error"""
            ev = [x for x in st.log if x[0] in ('done', 'loop')]
            eng.prove(st, bool(ev) and ev[-1][:2] == ('done', 'lex'), nm + ': parsed after lexing')
            eng.prove(st, isinstance(a[0], RP) and a[0].r == 'parser' and isinstance(a[1], RP) and a[1].r == 'err', nm + ': its parser, its error')
            self.source_is(eng, st, self.turn(st))

            def ret(s):
                q = self.list(eng, s)
                n = z3.BitVec('sources.%d' % st.ghost['nout'], 64)
                eng.assume(s, z3.UGE(n, bv(s.regs[q].n, 64)))
                eng.bound(s, n, 1 << 20)
                s.wr(q).n = n
                return z3.Bool('parse.ok.%d' % st.ghost['nout'])
            return self.out(eng, st, 'parse', ret)

        def c_phase(self, eng, st, a, ins):
            """run_sema, run_optimize, run_pre_codegen (host:phases)"""
            what = re.match(r'nano::(\w+)', eng.m.dem(self.callee(eng, st, ins))).group(1)
            eng.prove(st, isinstance(a[0], RP) and a[0].r == 'nano', nm + ': phases of this compiler')
            return self.out(eng, st, what, lambda s: None)

        def c_codegen(self, eng, st, a, ins):
            """codegen_t::run (C11)"""
            eng.prove(st, isinstance(a[1], RP) and a[1].r == 'ast' and a[1].off == self.off('ast_t', 'program'), nm + ': code of this program')
            return self.out(eng, st, 'codegen', lambda s: z3.Bool('codegen.ok'))

        def c_gc(self, eng, st, a, ins):
            """ast_t::gc"""
            st.log.append(('gc',))

        def cut_hook(self, eng, st, key, phis):
            o, w = self.off('nano_t', 'source_'), self

            class L(Scan):
                def back(self, eng, s, collect):
                    c = self.c0   # the current source is not known between turns: no claim rests on it
                    if c is None: s.wr('nano').cells.pop(o, None)
                    else: s.wr('nano').cells[o] = c
                    Scan.back(self, eng, s, collect)
            h = L(self, eng, st, key)
            h.c0 = st.regs['nano'].cells.get(o)
            return h

        def after(self, eng, s, k, w, f):
            n = bv(s.regs[self.list(eng, s)].n, 64)
            return [z3.ULE(k, n), z3.ULT(n, 1 << 20)]

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': errors do not leave it')
        v = tobool(v)
        ev = [x for x in s.log if x[0] in ('done', 'thrown', 'loop', 'gc')]
        done = [x for x in ev if x[0] == 'done']
        thrown = [x for x in ev if x[0] == 'thrown']
        oks = [x[2] for x in done if x[2] is not True]
        n0 = z3.BitVec('mgr.sources_.n', 64)
        if thrown:
            eng.prove(s, z3.Not(v), nm + ': an error makes it fail')
            if thrown[0][1] != 'parse':   # the parser reports by itself or by throwing
                pass
            e, x = get_sv(eng, s, RP('err', 0, w.off('error_t', 'error'))), get_sv(eng, s, w.new(eng, s, 'exc', 'error_t'))
            eng.prove(s, e.sid == z3.BitVec('exc.error.sid', 64), nm + ': the error is handed to the caller')
            l = lambda r, o: bv(eng.load(s, RP(r, 0, w.off('error_t', 'line') + o), INT(32)), 32)
            eng.prove(s, z3.And(l('err', 0) == l('exc', 0), l('err', 4) == l('exc', 4)), nm + ': the line of the error is handed to the caller')
            return
        if not must(eng, v):
            eng.prove(s, z3.Implies(z3.Not(v), z3.Or([n0 == 0] + [z3.Not(tobool(o)) for o in oks])), nm + ': fails only when a phase fails or there is nothing to compile')
        if eng.feasible(v):
            eng.prove(s, z3.Implies(v, z3.And([tobool(o) for o in oks] + [n0 != 0])), nm + ': succeeds only when every phase does')
            i = [j for j, x in enumerate(ev) if x[0] == 'loop']
            tail = ev[i[-1] + 1:] if i else ev
            names = [x[1] for x in tail if x[0] == 'done' and x[1] in PH]
            eng.prove(s, names == PH, nm + ': the phases run once each, in order')
            gc = [j for j, x in enumerate(tail) if x[0] == 'gc']
            cg = [j for j, x in enumerate(tail) if x[:2] == ('done', 'codegen')]
            eng.prove(s, not gc or bool(cg) and gc[0] > cg[0], nm + ': the tree is kept until code is generated')
            eng.prove(s, w.turn(s) == bv(s.regs[w.list(eng, s)].n, 64) if i else z3.BoolVal(False), nm + ': every source is read')

    return Task('host:build', lambda T, setup: run(T, setup, W(T), r'^nano::nano_t::build\(', lambda w, eng, st: [w.N, w.M, w.ERR], post), info={'native': ('paths', 'files', 'host')})


# passes of each phase, and which must come before which (a pass reads what the earlier one establishes)
PHASES = {'run_sema': (['sema_decl_annotate_t', 'sema_global_var_t', 'sema_const_t', 'sema_multi_decls_t', 'sema_num_args_t'],
                       [('sema_decl_annotate_t', 'sema_global_var_t'), ('sema_decl_annotate_t', 'sema_const_t'), ('sema_decl_annotate_t', 'sema_num_args_t')]),
          'run_optimize': (['opt_post_ret_t', 'opt_const_expr_t', 'opt_if_remove_t'], []),
          'run_pre_codegen': (['pregen_init_t', 'pregen_offset_t', 'pregen_functions_t'], [('pregen_init_t', 'pregen_offset_t'), ('pregen_offset_t', 'pregen_functions_t'), ('pregen_init_t', 'pregen_functions_t')])}


def t_phase(fn):
    nm = 'phase %s' % fn
    passes, order = PHASES[fn]

    class W(NanoWorld):
        def __init__(self, T):
            ProgWorld.__init__(self, T)
            self.contracts = [(re.compile(r'^nano::(sema|opt|pregen)_\w+::(sema|opt|pregen)_\w+\('), self.c_ctor), (re.compile(r'^nano::(sema|opt|pregen|ast_visitor)_\w+::visit\(nano::ast_program_t\*\)'), self.c_visit),
                              (re.compile(r'^nano::(sema|opt|pregen)_\w+::~'), lambda eng, st, a, ins: None)]

        def c_ctor(self, eng, st, a, ins):
            """constructor of a pass"""
            eng.prove(st, isinstance(a[1], RP) and a[1].r == 'nano', nm + ': a pass of this compiler')
            st.ghost['pass ' + a[0].r] = re.match(r'nano::(\w+)::', eng.m.dem(self.callee(eng, st, ins))).group(1)

        def c_visit(self, eng, st, a, ins):
            """visit(program) of a pass (C10, C11, C14)"""
            c = st.ghost.get('pass ' + a[0].r) if isinstance(a[0], RP) else None
            if c is None: raise Undecided('visit of an unknown pass')
            eng.prove(st, isinstance(a[1], RP) and a[1].r == 'ast' and a[1].off == self.off('ast_t', 'program'), nm + ': passes see the program')
            st.log.append(('pass', c))

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': returns')
        got = [x[1] for x in s.log if x[0] == 'pass']
        on = bv(eng.load(s, RP('nano', 0, w.off('nano_t', 'optimize')), INT(8)), 8) != 0
        if fn == 'run_optimize':
            eng.prove(s, z3.Or(on, z3.BoolVal(not got)), nm + ': nothing is optimised when that is off')
            return
        for p in passes: eng.prove(s, p in got, '%s: %s runs' % (nm, p))
        for a, b in order: eng.prove(s, a in got and b in got and got.index(a) < got.index(b), '%s: %s before %s' % (nm, a, b))
    return Task('host:' + fn, lambda T, setup: run(T, setup, W(T), r'^nano::%s\(' % fn, lambda w, eng, st: [w.N], post), info={'native': ('host', 'files')})


def t_nanoreset():
    """nano_t::reset: tokens, parser, tree and program are emptied"""
    nm = 'compiler reset'

    class W(NanoWorld):
        def __init__(self, T):
            ProgWorld.__init__(self, T)
            log = lambda what, reg: lambda eng, st, a, ins: (eng.prove(st, isinstance(a[0], RP) and a[0].r == reg, nm + ': its own %s' % what), st.log.append(('reset', what)), None)[2]
            self.contracts = [(re.compile(r'^nano::parser_t::reset\(\)'), log('parser', 'parser')), (re.compile(r'^nano::ast_t::reset\(\)'), log('tree', 'ast')), (re.compile(r'^nano::program_t::reset\(\)'), log('program', 'prog'))]
            self.tree['nano_t', 'lexer_'] = ('lexer_t', True)

        def make(self, eng):
            st = NanoWorld.make(self, eng)
            self.links['nano_t', 'parser_'] = self.new(eng, st, 'parser', 'parser_t')
            self.links['nano_t', 'program_'] = self.new(eng, st, 'prog', PG)
            return st

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        for x in ('tree', 'program'): eng.prove(s, ('reset', x) in s.log, '%s: the %s is emptied' % (nm, x))
    return Task('host:reset', lambda T, setup: run(T, setup, W(T), r'^nano::nano_t::reset\(\)', lambda w, eng, st: [w.N], post), info={'native': ('host',)})


def nano_tasks(): return [t_register(), t_build(), t_nanoreset()] + [t_phase(f) for f in PHASES]


def host_tasks():
    return table_tasks() + source_tasks() + nano_tasks()
