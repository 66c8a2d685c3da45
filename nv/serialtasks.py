"""Saving and loading programs (C15).

The file is a stream of 32 bit integers and byte runs.  Saving a unit (a text, a function, the line table, the program) is
executed symbolically down to fwrite and gives a layout: which member goes out at which place.  Loading the same kind of unit
is executed down to fread and gives the layout it reads.  The two layouts have to be the same and mention every member, hence
loading what was saved gives back every member; the format itself is not prescribed."""
import re
import z3
from .sx import *
from .sx import Reg
from .ast import *
from .ast import AstWorld, must
from .vtasks import WLoop
from .models import Vec, SV, setup_seq, the_obj, str_eq, get_sv, sv_of_sid, set_obj, init_sv, sv_lit, STR_T, m_vector, m_string
from .ir import Unsupported, PTR, INT
from .task import Task, standin
from .vmtasks import find1

FN, PG, ID, SC = 'function_t', 'program_t', 'identifier_t', 'program_t::syscall_entry_t'
LINES = r'std::map<int, nano::line_t.*>'
STRREF = r'std::__cxx11::basic_string<[^()]*>'
# what each unit consists of
MEMBERS = {'fn': [('str', 'name_'), 'code_start_', 'code_end_', ('list', 'locals_', ['name_', 'offset_']), ('list', 'args_', ['name_', 'offset_'])],
           'prog': [('list', 'syscalls_', ['name_']), ('list', 'functions_', ['self']), 'code_', ('lines', 'line_table_'), ('list', 'strings_', ['self'])]}
ELEM = {'locals_': ID, 'args_': ID, 'syscalls_': SC, 'functions_': FN, 'strings_': None}


class Broken(Exception): pass


class SerialWorld(AstWorld):
    def __init__(self, T, unit, load):
        AstWorld.__init__(self, T)
        self.unit, self.load = unit, load
        self.cls = {'fn': FN, 'prog': PG}.get(unit)
        self.loops = {}
        self.contracts = [(re.compile(r'^fopen$'), self.c_open), (re.compile(r'^fclose$'), self.c_close), (re.compile(r'^ferror$'), self.c_ferror),
                          (re.compile(r'^fwrite$'), self.c_write), (re.compile(r'^fread$'), self.c_read), (re.compile(r'^fseek$'), self.c_seek), (re.compile(r'^ftell$'), self.c_tell),
                          (re.compile(r'^(?:[^(]* )?std::vector<(nano::[^(]*|std::__cxx11::basic_string[^(]*)>::emplace_back<>\('), self.c_default),
                          (re.compile(r'^(?:[^(]* )?std::vector<unsigned char.*>::resize\('), self.c_resize),
                          (re.compile(r'^' + STRREF + r'::resize\('), self.c_sresize),
                          (re.compile(r'^' + LINES + r'::(size|begin|end|cbegin|cend|clear|empty)\('), self.c_lines),
                          (re.compile(r'^' + LINES + r'::(operator\[\]|insert|emplace)'), self.c_lineset),
                          (re.compile(r'^std::_Rb_tree_(const_)?iterator<std::pair<int const, nano::line_t> >::operator(\+\+|\*|->)\('), self.c_iter),
                          (re.compile(r'^std::operator(!=|==)\(std::_Rb_tree'), self.c_same)]
        me = {'str': STRREF, 'fn': r'nano::function_t', 'lines': LINES}
        for k, rx in me.items():
            if k == unit: continue
            self.contracts.append((re.compile(r'\(_IO_FILE\*, %s%s&\)$' % (rx, '' if load else ' const')), self.c_unit(k)))

    # ------------------------------------------------------------ the file
    def stream(self, st):
        if 'fd' not in st.regs:
            r = Reg('fd', 'fd', 'cells')
            r.cells[0] = (1, 0)      # a write failed
            r.meta = {}
            st.regs['fd'] = r
        return RP('fd')

    def c_open(self, eng, st, a, ins):
        """fopen: a stream, or null"""
        self.stream(st)

        def ok(s):
            eng.prove(s, not s.ghost.get('open'), 'one file is open')
            s.ghost['open'] = s.ghost['opened'] = True
            return RP('fd')

        def no(s):
            s.ghost['noopen'] = True
            return NULL
        c = z3.Bool('can open')
        return [Alt(c, ok), Alt(z3.Not(c), no)]

    def c_close(self, eng, st, a, ins):
        """fclose: flushes; reports failure"""
        eng.prove(st, isinstance(a[0], RP) and a[0].r == 'fd' and st.ghost.get('open'), 'closes an open file')
        st.ghost['open'] = False
        f = z3.BitVec('close fails', 32)
        st.ghost['closed'] = f
        return f

    def c_ferror(self, eng, st, a, ins):
        """ferror: nonzero once a write has failed"""
        eng.prove(st, isinstance(a[0], RP) and a[0].r == 'fd' and st.ghost.get('open'), 'asks an open file')
        return z3.ZeroExt(24, bv(eng.load(st, RP('fd'), INT(8)), 8))

    def here(self, eng, st, p):
        eng.prove(st, isinstance(p, RP) and p.r == 'fd' and st.ghost.get('open', self.unit != 'prog'), 'uses the open file')
        eng.prove(st, st.ghost.get('at', 'here') == 'here', 'continues where it was')

    def c_write(self, eng, st, a, ins):
        """fwrite: appends the bytes, or fails (sticky)"""
        self.here(eng, st, a[3])
        n = simp(bv(a[1], 64) * bv(a[2], 64))
        p = a[0]
        fail = eng.sym('write fails', 8)
        eng.assume(st, z3.ULE(fail, 1))
        eng.store(st, RP('fd'), INT(8), simp(bv(eng.load(st, RP('fd'), INT(8)), 8) | fail))
        if is_c(n) and n == 4 and not (isinstance(p, RP) and st.regs[p.r].kind == 'seq' and st.regs[p.r].es == 1):
            st.log.append(('i32', bv(eng.load(st, p, INT(32)), 32)))
        else:
            if not isinstance(p, RP): raise Undecided('writes %r' % p)
            r = st.regs[p.r]
            if r.meta.get('owner') is not None and is_c(p.idx) and p.idx == 0:
                st.log.append(('text', r.meta['owner'], simp(bv(n, 64) == bv(r.meta['sv'].n, 64))))
            elif r.kind == 'seq' and r.es == 1 and is_c(p.idx) and p.idx == 0: st.log.append(('bytes', p.r, simp(bv(n, 64) == bv(r.n, 64))))
            else: raise Undecided('writes %r' % p)
        return z3.If(fail == 0, bv(a[2], 64), z3.BitVecVal(0, 64))

    def pos(self, st): return z3.BitVec('pos.%d' % len([x for x in st.log if x[0] != 'loop']), 64)

    def left(self, eng, st):
        e = z3.BitVec('file end', 64)
        p = self.pos(st)
        eng.assume(st, z3.And(p >= 0, p <= e, e < 1 << 31))
        eng.trusted.add('files are smaller than 2 GB')
        return e - p

    def c_tell(self, eng, st, a, ins):
        """ftell"""
        at = st.ghost.get('at', 'here')
        l = self.left(eng, st)
        if at == 'here': return self.pos(st)
        if at == 'end': return z3.BitVec('file end', 64)
        return at

    def c_seek(self, eng, st, a, ins):
        """fseek: to the end or to a place"""
        if is_c(a[2]) and a[2] == 2 and is_c(a[1]) and a[1] == 0: st.ghost['at'] = 'end'
        elif is_c(a[2]) and a[2] == 0:
            t = simp(bv(a[1], 64))
            st.ghost['at'] = 'here' if must(eng, bv(t, 64) == self.pos(st)) else t
        else: raise Undecided('fseek')
        return 0

    def c_read(self, eng, st, a, ins):
        """fread: the next bytes, or fewer than asked at the end of the file"""
        self.here(eng, st, a[3])
        n = simp(bv(a[1], 64) * bv(a[2], 64))
        p = a[0]
        if not isinstance(p, RP): raise Undecided('reads into %r' % p)
        r = st.regs[p.r]
        i = len(st.log)

        def ok(s):
            if is_c(n) and n == 4 and not (r.kind == 'seq' and r.es == 1):
                v = eng.sym('in', 32)
                s.log.append(('i32', v, p))
                eng.store(s, p, INT(32), v)
            else:
                src = z3.Function('file.%d' % (eng.nfresh + 1), B64, z3.BitVecSort(8))
                eng.nfresh += 1
                cap = bv(r.n, 64) - (1 if r.meta.get('owner') is not None else 0)
                eng.prove(s, z3.And(z3.ULE(bv(p.idx, 64), cap), z3.ULE(bv(n, 64), cap - bv(p.idx, 64))), 'reads no more than there is room for')
                if not is_c(p.idx) or p.idx != 0: raise Undecided('reads into the middle')
                if r.meta.get('owner') is not None:
                    s.log.append(('text', r.meta['owner'], n, src))
                    old = r.meta['sv']
                    init_sv(eng, s, r.meta['owner'], SV(old.n, Fun(lambda j: z3.If(z3.ULT(bv(j, 64), bv(n, 64)), src(bv(j, 64)), bv(old.fun.read(j), 8)))))
                else:
                    s.log.append(('bytes', p.r, n, src))
                    f = eng.seq_field(s, s.regs[p.r], 0, 1, INT(8))
                    s.wr(p.r).f[0, 1] = f.guarded(lambda j: (z3.ULT(bv(j, 64), bv(n, 64)), src(bv(j, 64))))
            return bv(a[2], 64)

        def short(s):
            s.ghost['bad'] = True
            k = eng.sym('read', 64)
            eng.assume(s, z3.ULT(k, bv(a[2], 64)))
            if is_c(n) and n == 4 and not (r.kind == 'seq' and r.es == 1): eng.store(s, p, INT(32), eng.sym('junk', 32))
            elif r.meta.get('owner') is not None: init_sv(eng, s, r.meta['owner'], sv_of_sid(eng.sym('junk', 64)))
            return k
        c = eng.symb('complete')
        eng.assume(st, z3.Implies(bv(n, 64) == 0, c))
        return [Alt(c, ok), Alt(z3.Not(c), short)]

    # ------------------------------------------------------------ containers
    def c_default(self, eng, st, a, ins):
        """emplace_back(): appends a default element"""
        v = the_obj(eng, st, a[0], 'vector', re.search(r'std::vector<(.*?)(, std::allocator|>::)', eng.m.dem(self.callee(eng, st, ins))).group(1))
        w = st.wr(v.seq)
        i = w.n
        w.n = simp(bv(i, 64) + 1)
        st.log.append(('new', v.seq))
        fresh = w.f.get((0, 'fresh')) or Fun(lambda j: z3.Function(v.seq + '.fresh', B64, z3.BoolSort())(bv(j, 64)))
        w.f[0, 'fresh'] = fresh.write(i, z3.BoolVal(True))
        for (o, k) in list(w.f):
            if k == 'string': w.f[o, k] = w.f[o, k].write(i, sv_lit(b''))
        # value-initialised: members without a constructor of their own start as zero
        T = v.T
        z = {'nano::identifier_t': (self.off(ID, 'offset_'), 4), 'nano::program_t::syscall_entry_t': (self.off(SC, 'call_'), 8)}.get(T)
        if z:
            f = eng.seq_field(st, w, z[0], z[1], INT(32) if z[1] == 4 else PTR)
            st.wr(v.seq).f[z] = f.write(i, z3.BitVecVal(0, 8 * z[1]))
        return RP(v.seq, i)

    def c_resize(self, eng, st, a, ins):
        """vector<uint8_t>::resize"""
        self.fits(eng, st, a[1])
        return m_vector(eng, st, a, ins)

    def c_sresize(self, eng, st, a, ins):
        """string::resize"""
        self.fits(eng, st, a[1])
        return m_string(eng, st, a, ins)

    def fits(self, eng, st, n):
        if self.load: eng.prove(st, z3.ULE(bv(n, 64), self.left(eng, st)), 'a size is checked against what is left of the file')

    def c_lines(self, eng, st, a, ins):
        """the line table: entries in order of their distinct addresses"""
        m = re.search(r'>::c?(size|begin|end|clear|empty)\(', eng.m.dem(self.callee(eng, st, ins))).group(1)
        q = self.lineseq(eng, st)
        if m == 'clear':
            st.wr(q).n = 0
            return None
        n = st.regs[q].n
        if m == 'size': return n
        if m == 'empty': return simp(bv(n, 64) == 0)
        return RP(q, 0 if m == 'begin' else n)

    def lineseq(self, eng, st):
        if 'lines' not in st.regs:
            r = Reg('lines', 'lines', 'seq')
            r.es, r.n = 12, z3.BitVec('lines.n', 64)
            setup_seq(eng, r, 'lines', 'line')
            st.regs['lines'] = r
            eng.bound(st, r.n, 1 << 30)
        return 'lines'

    def c_lineset(self, eng, st, a, ins):
        """line_table[pc]: the entry of that address, created when absent"""
        m = re.search(r'>::(operator\[\]|insert|emplace)', eng.m.dem(self.callee(eng, st, ins))).group(1)
        if m != 'operator[]': raise Undecided('map ' + m)
        k = bv(eng.load(st, a[1], INT(32)), 32)
        rid = 'slot.%d' % len(st.regs)
        r = Reg(rid, rid, 'cells')
        r.meta = {}
        st.regs[rid] = r
        st.log.append(('entry', k, rid))
        return RP(rid)

    c_iter = lambda self, eng, st, a, ins: self._iter(eng, st, a, ins)

    def _iter(self, eng, st, a, ins):
        m = re.search(r'>::operator(\+\+|\*|->)\(', eng.m.dem(self.callee(eng, st, ins))).group(1)
        p = eng.load(st, a[0], PTR)
        if m != '++': return p
        eng.store(st, a[0], PTR, RP(p.r, simp(bv(p.idx, 64) + 1), p.off))
        return a[0]

    def c_same(self, eng, st, a, ins):
        """iterators are equal when they stand at the same element"""
        e = eng.ptr_eq(st, eng.load(st, a[0], PTR), eng.load(st, a[1], PTR))
        if 'operator!=' not in eng.m.dem(self.callee(eng, st, ins)): return e
        return (not e) if isinstance(e, bool) else z3.Not(e)

    def c_unit(self, kind):
        def f(eng, st, a, ins):
            self.here(eng, st, a[0])
            p = a[1]
            if not self.load:
                fail = eng.sym('write fails', 8)
                eng.assume(st, z3.ULE(fail, 1))
                eng.store(st, RP('fd'), INT(8), simp(bv(eng.load(st, RP('fd'), INT(8)), 8) | fail))
                st.log.append((kind, p))
                return None

            def ok(s):
                s.log.append((kind, p))
                self.fill(eng, s, kind, p)
                return True

            def no(s):
                s.ghost['bad'] = True
                self.fill(eng, s, kind, p)
                return False
            c = eng.symb('complete')
            if kind == 'lines': eng.prove(st, bv(st.regs[self.lineseq(eng, st)].n, 64) == 0, 'load program: lines of an earlier program are gone')
            return [Alt(c, ok), Alt(z3.Not(c), no)]
        f.__doc__ = {'str': 'a text is written or read: proved by unit[text]', 'fn': 'a function is written or read: proved by unit[function]', 'lines': 'the line table is written or read: proved by unit[line table]'}[kind]
        f.__name__ = 'c_unit_' + kind
        return f

    def fill(self, eng, st, kind, p):
        if kind == 'str': init_sv(eng, st, p, sv_of_sid(eng.sym('text', 64)))

    # ------------------------------------------------------------ objects
    def lazy_obj(self, eng, st, r, off, kind, T=None):
        v = AstWorld.lazy_obj(self, eng, st, r, off, kind, T)
        if kind == 'vector' and T and 'basic_string' not in T and T.startswith('nano::'):
            q = st.regs[v.seq]
            if (0, 'string') not in q.f: q.f[0, 'string'] = Fun(lambda i: sv_of_sid(z3.Function(v.seq + '.name.sid', B64, B64)(bv(i, 64))))
            if T.endswith('syscall_entry_t'):
                def wrap(e, t, x, p):
                    if isinstance(x, Ptr): return x
                    return NULL if must(e, x == 0) else MaybeP(x != 0, self.new(e, t, 'host:' + z3.simplify(x).sexpr(), None))
                q.meta = dict(q.meta, unwrap=self.unwrap, wrap=wrap)
        return v

    def cut_hook(self, eng, st, key, phis): return SLoop(self, eng, st, key)

    def make(self, eng):
        st = State()
        self.stream(st)
        if self.unit == 'prog': self.new(eng, st, 'this', PG)
        elif self.unit == 'fn': self.new(eng, st, 'this', FN)
        elif self.unit == 'str':
            r = Reg('this', 'this', 'cells')
            r.meta = {}
            r.objs[0] = sv_of_sid(z3.BitVec('text.sid', 64))
            st.regs['this'] = r
        else:
            r = Reg('this', 'this', 'cells')
            r.meta = {}
            st.regs['this'] = r
        return st

    # ------------------------------------------------------------ layouts
    def ints(self, eng, st, k=None, seq=None):
        """(label, value) of the integers of the unit; of element k of seq in a loop"""
        out = []
        if seq is not None:
            r = st.regs[seq]
            if seq == 'lines':
                for o, l in ((0, 'pc'), (4, 'file'), (8, 'line')): out.append((l, eng.seq_field(st, r, o, 4, INT(32)).read(k)))
            else:
                f = seq.split('.')[-1]
                if ELEM.get(f) == ID: out.append(('offset_', eng.seq_field(st, r, self.off(ID, 'offset_'), 4, INT(32)).read(k)))
            return out
        if self.cls:
            for m in MEMBERS[self.unit]:
                if isinstance(m, str) and m != 'code_': out.append((m, eng.load(st, RP('this', 0, self.off(self.cls, m)), INT(32))))
            for m in self.lists(): out.append(('count ' + m, z3.Extract(31, 0, bv(st.regs[self.seq(eng, st, m)].n, 64))))
        if self.unit == 'str': out.append(('length', z3.Extract(31, 0, bv(st.regs['this'].objs[0].n, 64))))
        if self.unit == 'lines': out.append(('count', z3.Extract(31, 0, bv(st.regs[self.lineseq(eng, st)].n, 64))))
        return out

    def lists(self): return [m[1] for m in MEMBERS[self.unit] if m[0] == 'list'] + (['code_'] if self.unit == 'prog' else [])

    def VT1(self, f): return {'locals_': 'nano::identifier_t', 'args_': 'nano::identifier_t', 'syscalls_': 'nano::program_t::syscall_entry_t', 'functions_': 'nano::function_t', 'strings_': STR_T, 'code_': 'unsigned char'}[f]

    def seq(self, eng, st, f): return the_obj(eng, st, RP('this', 0, self.off(self.cls, f)), 'vector', self.VT1(f)).seq

    def label(self, eng, st, p, k=None, seq=None):
        """which member a pointer denotes"""
        if not isinstance(p, RP): return None
        if p.r == 'this':
            if self.unit == 'str': return 'self'
            for m in MEMBERS.get(self.unit, ()):
                if m[0] in ('str', 'lines') and is_c(p.off) and p.off == self.off(self.cls, m[1]): return m[1]
            return None
        if seq is not None and p.r == seq and must(eng, bv(p.idx, 64) == bv(k, 64)):
            f = seq.split('.')[-1]
            if f in ('strings_', 'functions_'): return 'self' if p.off == 0 else None
            return 'name_' if p.off == self.off(ELEM[f], 'name_') else None
        return None

    def item(self, eng, s, x, k=None, seq=None):
        """canonical form of one event of the stream"""
        if x[0] == 'loop': return self.loops.get(x[1], ('loop', None, ()))
        if x[0] == 'i32':
            v = bv(x[1], 32)
            for l, t in self.ints(eng, s, k, seq):
                t = bv(t, 32)
                if l.startswith('count') or l == 'length': c = z3.Or(v == t, z3.And(v < 0, t == 0)) if self.load else v == t
                else: c = v == t
                if not isinstance(simp(t), int) and must(eng, c): return ('i32', l)
            for c in (1280131907,):
                pass
            m = None
            if eng.check() == z3.sat:
                m = eng.solver.model().eval(v, model_completion=True)
                if must(eng, v == m): return ('i32', 'const %d' % m.as_long())
            return ('i32', '?')
        if x[0] in ('text', 'bytes'):
            if x[0] == 'bytes': l = [m for m in self.lists() if self.seq(eng, s, m) == x[1]] if self.cls else []
            else: l = [self.label(eng, s, x[1], k, seq)]
            if not l or l[0] is None: return (x[0], '?')
            if not self.load: return (x[0], l[0]) if must(eng, x[2]) else (x[0], 'part of ' + l[0])
            # everything there is was read from the file
            if x[0] == 'text':
                sv = get_sv(eng, s, x[1])
                f, n = sv.fun, bv(sv.n, 64)
            else:
                f, n = eng.seq_field(s, s.regs[x[1]], 0, 1, INT(8)), bv(s.regs[x[1]].n, 64)
            j = z3.BitVec('any.byte', 64)
            ok = must(eng, n == bv(x[2], 64)) and must(eng, z3.Implies(z3.ULT(j, n), bv(f.read(j), 8) == x[3](j)))
            return (x[0], l[0]) if ok else (x[0], 'part of ' + l[0])
        if x[0] in ('str', 'fn', 'lines'): return (x[0], self.label(eng, s, x[1], k, seq))
        return (x[0],)

    def layout(self, eng, s, log, k=None, seq=None): return tuple(self.item(eng, s, x, k, seq) for x in log if x[0] not in ('new', 'entry'))


class SLoop(WLoop):
    """one element is written or read per turn"""
    writes = True

    def __init__(self, w, eng, st, key):
        WLoop.__init__(self, w, eng, st, key)
        st.regs[self.k].cells[8] = (4, z3.BitVecVal(0, 32))
        self.dest = None

    def havoc(self, eng, st, sh):
        sh.log.append(('loop', self.k))
        return ()

    def havoc2(self, eng, st, sh, hv):
        e = hv.get(('cell', 'fd', 0, 1))
        if e: sh.pc.append(z3.And(z3.ULE(bv(e[0], 8), 1), z3.UGE(bv(e[0], 8), bv(e[1], 8))))
        self.n0 = {m: bv(sh.regs[self.w.seq(eng, sh, m)].n, 64) for m in self.w.lists()} if self.w.cls else {}
        self.f0 = {m: dict(sh.regs[self.w.seq(eng, sh, m)].f) for m in self.n0}

    def cands(self, eng, st, sh, hv, cur):
        l64, l32 = ('cell', self.k, 0, 8), ('cell', self.k, 8, 4)
        if l64 not in hv or l32 not in hv: return []
        rd = [bv(x[1], 32) for x in st.log if x[0] == 'i32'][-1:] if self.w.load else []

        def inv(a, b): return z3.And(a == z3.SignExt(32, b), *[z3.Or(b == 0, b <= v) for v in rd], b >= 0)
        return [('turns', z3.BoolVal(True), inv(bv(hv[l64][0], 64), bv(hv[l32][0], 32)), lambda s1, pv: inv(cur(l64, s1, pv), cur(l32, s1, pv)))]

    def settle(self, eng, st, sh, phis, backs, holds): pass

    def back(self, eng, s, collect):
        k = bv(s.regs[self.k].cells[0][1], 64)
        if not collect: self.body(eng, s, k, s.log[self.nlog + 1:])
        s.wr(self.k).cells[0] = (8, simp(k + 1))
        s.wr(self.k).cells[8] = (4, simp(bv(s.regs[self.k].cells[8][1], 32) + 1))

    def body(self, eng, s, k, ev):
        w = self.w
        eng.prove(s, not s.ghost.get('bad'), 'a short read ends the loading')
        if w.load and w.unit == 'lines':
            en = [x for x in ev if x[0] == 'entry']
            rd = [x for x in ev if x[0] == 'i32']
            eng.prove(s, len(en) == 1, 'one entry per turn')
            if len(en) != 1: return
            lab = []
            for x in rd:
                c = s.regs[en[0][2]].cells
                o1, o2 = w.off('line_t', 'file'), w.off('line_t', 'line')

                def cell(o):
                    if o in c and c[o][0] == 4: return bv(c[o][1], 32)
                    for o0, (sz, v) in c.items():
                        if o0 <= o < o0 + sz: return z3.Extract((o - o0) * 8 + 31, (o - o0) * 8, bv(v, sz * 8))
                    return z3.BitVecVal(0, 32)
                l = [n for n, t in (('pc', en[0][1]), ('file', cell(o1)), ('line', cell(o2))) if must(eng, t == bv(x[1], 32))]
                lab.append(('i32', l[0] if l else '?'))
            w.loops[self.k] = ('loop', 'lines', tuple(lab))
            return
        if w.load:
            new = [x for x in ev if x[0] == 'new']
            eng.prove(s, len(new) == 1, 'one element per turn')
            if len(new) != 1: return
            q = new[0][1]
            m = q.split('.')[-1]
            n0 = self.n0[m]
            eng.prove(s, bv(s.regs[q].n, 64) == n0 + 1, 'one element per turn')
            eng.prove(s, n0 == k, 'elements in order')
            j = z3.BitVec('any.elem', 64)
            for key, f in self.f0[m].items():
                g = s.regs[q].f.get(key)
                if g is None or g is f or key[1] == 'fresh': continue
                if key[1] == 'string': c = g.read(j).sid == f.read(j).sid if g.read(j).sid is not None else z3.BoolVal(False)
                else: c = bv(g.read(j), 8 * key[1]) == bv(f.read(j), 8 * key[1]) if not isinstance(g.read(j), Ptr) else z3.BoolVal(True)
                eng.prove(s, z3.Implies(z3.ULT(j, n0), c), 'earlier elements are kept')
            for m2 in self.n0:
                if m2 != m: eng.prove(s, bv(s.regs[w.seq(eng, s, m2)].n, 64) == self.n0[m2], 'other lists are kept')
            if m == 'syscalls_':
                p = eng.load(s, RP(q, n0, w.off(SC, 'call_')), PTR)
                eng.prove(s, isinstance(p, Null) or isinstance(p, MaybeP) and must(eng, z3.Not(p.c)), 'host functions are unresolved after loading')
            w.loops[self.k] = ('loop', m, w.layout(eng, s, ev, n0, q))
            return
        # saving: the elements of one list in order
        cand = ['lines'] if w.unit == 'lines' else [w.seq(eng, s, m) for m in w.lists() if m != 'code_']
        for q in cand:
            lay = w.layout(eng, s, ev, k, q)
            if lay and all(None not in x and '?' not in x for x in lay):
                w.loops[self.k] = ('loop', q.split('.')[-1], lay)
                return
        w.loops[self.k] = ('loop', None, w.layout(eng, s, ev, k, cand[0] if cand else None))


NAMES = {'str': 'text', 'fn': 'function', 'lines': 'line table', 'prog': 'program'}


def run_unit(T, setup, unit, load):
    """layouts of all successful runs"""
    w = SerialWorld(T, unit, load)
    eng = setup(w.engine())
    st = w.make(eng)
    eng.canary = False
    nm = ('load ' if load else 'save ') + NAMES[unit]
    if unit == 'prog': fn = r'^nano::program_t::serial_%s\(' % ('load' if load else 'save')
    else: fn = r'\(_IO_FILE\*, %s%s&\)$' % ({'str': STRREF, 'fn': 'nano::function_t', 'lines': LINES}[unit], '' if load else ' const')
    path = Reg('path', 'path', 'seq')
    path.es, path.n, path.meta = 1, z3.BitVec('path.n', 64), {}
    st.regs['path'] = path
    args = [RP('this'), RP('path')] if unit == 'prog' else [RP('fd'), RP('this')]
    if load and unit in ('fn',):
        # loaded into a new element
        for m in w.lists(): st.wr(w.seq(eng, st, m)).n = 0
    if load and unit == 'lines': st.regs[w.lineseq(eng, st)]
    outs = []

    def end(s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        if not eng.canary and eng.check() == z3.sat: eng.canary = True
        if not z3.is_expr(v) and v is not None: v = z3.BoolVal(bool(v))
        if unit == 'prog':
            eng.prove(s, not s.ghost.get('open'), nm + ': the file is closed')
            if s.ghost.get('noopen'):
                eng.prove(s, z3.Not(tobool(v)), nm + ': reports a file that cannot be opened')
                return
        if not load:
            if unit == 'prog':
                fail = z3.Or(bv(eng.load(s, RP('fd'), INT(8)), 8) != 0, s.ghost.get('closed', z3.BitVecVal(1, 32)) != 0)
                eng.prove(s, z3.Implies(tobool(v), z3.Not(fail)), nm + ': reports what could not be written')
                eng.prove(s, z3.Or(tobool(v), fail), nm + ': succeeds when everything was written')
                for m in w.lists(): eng.prove(s, eng.load is not None and bv(s.regs[w.seq(eng, s, m)].n, 64) == z3.BitVec('this.%s.n' % m, 64), nm + ': leaves the program alone')
            done(s)
            return
        t = tobool(v)
        if s.ghost.get('bad'): return eng.prove(s, z3.Not(t), nm + ': refuses a file that is cut short')
        if must(eng, z3.Not(t)):
            rd = [x for x in s.log if x[0] == 'i32']
            if not rd: return eng.prove(s, False, nm + ': refuses only damaged files')
            x = bv(rd[-1][1], 32)
            why = [x < 0, z3.SignExt(32, x) > w.left(eng, s)]
            if len(s.log) == 1 and unit == 'prog':
                w.magic = getattr(w, 'magic', []) + [(s, x)]
                why.append(z3.And(*[x != c for c in w.consts]) if w.consts else z3.BoolVal(False))
            return eng.prove(s, z3.Or(why), nm + ': refuses only damaged files')
        eng.prove(s, t, nm + ': a definite answer')
        if unit == 'prog': eng.prove(s, bv(s.regs[the_obj(eng, s, RP('this', 0, w.off(PG, 'globals_')), 'vector', 'nano::identifier_t').seq].n, 64) == 0, nm + ': globals of an earlier program are gone')
        done(s)

    def done(s):
        for x in s.log:
            if x[0] == 'loop' and x[1] not in w.loops: eng.prove(s, bv(s.regs[x[1]].cells[0][1], 64) == 0, nm + ': loop without body')
            if x[0] == 'loop' and x[1] in w.loops:
                m = w.loops[x[1]][1]
                n = bv(s.regs[x[1]].cells[0][1], 64)
                if m == 'lines' and not load: eng.prove(s, n == bv(s.regs['lines'].n, 64), nm + ': every entry')
                elif m == 'lines':
                    c = bv([y for y in s.log if y[0] == 'i32'][0][1], 32)
                    eng.prove(s, z3.Or(z3.SignExt(32, c) == n, z3.And(c < 0, n == 0)), nm + ': every entry')
                elif m is not None: eng.prove(s, n == bv(s.regs[w.seq(eng, s, m)].n, 64), nm + ': every element of ' + m)
        lay = w.layout(eng, s, s.log)
        if load and unit == 'lines': lay = tuple(('i32', 'count') if x == ('i32', '?') else x for x in lay[:1]) + lay[1:]
        outs.append((s, lay))
    eng.on_end = end
    w.consts = [1280131907] if False else getattr(run_unit, 'consts', [])
    eng.start(st, find1(T, fn), args)
    eng.explore(st)
    return w, eng, outs


def covered(unit, lay):
    """every member is in the layout"""
    if unit == 'str': return lay == (('i32', 'length'), ('text', 'self'))
    if unit == 'lines': return len(lay) == 2 and lay[0] == ('i32', 'count') and lay[1][0] == 'loop' and sorted(x[1] for x in lay[1][2]) == ['file', 'line', 'pc']
    for m in MEMBERS[unit]:
        if isinstance(m, str):
            if m == 'code_':
                if ('bytes', m) not in lay or ('i32', 'count code_') not in lay or lay.index(('i32', 'count code_')) > lay.index(('bytes', m)): return False
            elif ('i32', m) not in lay: return False
        elif m[0] == 'list':
            at = [i for i, x in enumerate(lay) if x[0] == 'loop' and x[1] == m[1]]
            if len(at) != 1 or ('i32', 'count ' + m[1]) not in lay[:at[0]]: return False
            if sorted(str(y[1]) for y in lay[at[0]][2]) != sorted(m[2]): return False
        elif m not in lay: return False
    return True


def t_unit(unit):
    nm = NAMES[unit]

    def body(T, setup):
        w1, e1, saved = run_unit(T, setup, unit, False)
        full = [l for s, l in saved if all(x[0] != 'loop' or x[1] is not None for x in l)]
        run_unit.consts = [int(x[1].split()[1]) for l in full for x in l[:1] if x[0] == 'i32' and x[1].startswith('const')]
        w2, e2, loaded = run_unit(T, setup, unit, True)
        lays = {l for s, l in saved}
        for s, l in saved: e2.prove(State(), covered(unit, l), 'save %s: every member is written%s' % (nm, '' if covered(unit, l) else ' %r' % (l,)))
        for s, l in loaded: e2.prove(State(), covered(unit, l), 'load %s: every member is read%s' % (nm, '' if covered(unit, l) else ' %r' % (l,)))
        both = lays | {l for s, l in loaded}
        e2.prove(State(), len(both) == 1, '%s: what is written is what is read%s' % (nm, '' if len(both) == 1 else ' %r' % (sorted(map(str, both)),)))
        e2.canary = bool(saved) and bool(loaded)
        return e2
    return Task('unit:' + nm, body, info={'native': ('serial',)})


def serial_tasks(): return [t_unit(u) for u in ('str', 'fn', 'lines', 'prog')]
