"""Code generation: the code emitted for each kind of syntax tree node against its control-flow specification (C11),
and the line table entries of the same instructions (C16)."""
import re
import z3
from .sx import *
from .sx import Reg
from .ast import *
from .ast import AstWorld, spec_paths, must, VAR, FUN, BLK, NODES, TYPE_OF
from .models import Vec, str_eq, sv_of_sid, the_obj, get_sv, sid_of, tsize, setup_seq, sv_lit
from .ir import Unsupported, PTR, INT
from .task import Task, standin
from .vmtasks import find1

B8 = z3.BitVecSort(8)
INS1 = ('ADD SUB MUL DIV MOD AND OR NOT NEG LT GT LEQ GEQ EQ DEREF SETA NEW_NONE').split()
INS5 = ('JMP TJMP FJMP RET ICALL POP NEW_INT NEW_STR NEW_ARY NEW_FLT NEW_FUNC NEW_SCALL LOCALS GLOBALS GETV SETV GETG SETG GETM SETM ARY_INIT').split()
INS9 = ('CALL SCALL').split()
MAXCODE = 1 << 30


class Loop:
    """an iteration over syntax tree nodes that emits code: cut at an arbitrary iteration"""
    events = True

    def __init__(self, w, eng, st, key):
        self.w, self.key = w, key
        self.k = 'ghost.iter.%s.%s' % key
        r = Reg(self.k, self.k, 'cells')
        r.cells[0] = (8, z3.BitVecVal(0, 64))
        r.meta = {}
        st.regs[self.k] = r
        self.nlog = len(st.log)
        self.tag = '%s.%s.%d' % (key[0][-20:], key[1], eng.nfresh)

    def havoc(self, eng, st, sh):
        own = self.w.havoc_emit(eng, sh, self.tag)
        sh.log.append(('segs',) + own[1] + (self.k,))
        return own[0]

    def settle(self, eng, st, sh, phis, backs, holds): pass

    def back(self, eng, s, collect):
        k = s.regs[self.k].cells[0][1]
        if not collect:
            ev = s.log[self.nlog + 1:]
            self.w.loop_body(eng, s, self, ev, k)
        r = s.wr(self.k)
        r.cells[0] = (8, simp(bv(k, 64) + 1))


class CgWorld(AstWorld):
    """codegen_pass_t with arbitrary code, strings, fixups and line table already emitted"""

    def __init__(self, T):
        AstWorld.__init__(self, T)
        self.contracts = [(re.compile(r'^nano::ast_visitor_t::dispatch\('), self.c_dispatch)]
        self.loopvec = {}

    def cut_hook(self, eng, st, key, phis):
        return Loop(self, eng, st, key) if key in eng.event_loops else None

    def make(self, eng, cls, front_is_n=False):
        st = State()
        self.E['__cls'] = 0
        P = self.new(eng, st, 'program', 'program_t')
        B = self.new(eng, st, 'builder', 'program_builder_t')
        N = self.new(eng, st, 'nano', 'nano_t')
        V = self.new(eng, st, 'this', 'codegen_pass_t')
        self.lex = self.new(eng, st, 'lexer', 'lexer_t')
        self.links.update({('program_builder_t', 'program_'): P, ('program_builder_t', 'data_'): RP(P.r, 0, self.off('program_t', 'code_')),
                           ('nano_t', 'program_'): P, ('codegen_pass_t', 'nano_'): N, ('codegen_pass_t', 'stream_'): B,
                           ('codegen_pass_t', 'funcs_'): RP(P.r, 0, self.off('program_t', 'functions_')),
                           ('codegen_pass_t', 'strings_'): RP(P.r, 0, self.off('program_t', 'strings_')),
                           ('nano_t', 'ast_'): lambda e, s, r: self.new(e, s, 'ast', 'ast_t')})
        self.tree[('nano_t', 'lexer_')] = ('lexer_t', True)
        self.P, self.V, self.N = P, V, N
        # code
        c = Reg('code', 'code', 'seq')
        c.es, c.n = 1, z3.BitVec('code.n', 64)
        f = z3.Function('code', B64, B8)
        c.f[0, 1] = Fun(lambda i: f(bv(i, 64)))
        c.meta = {'T': 'unsigned char'}
        st.regs['code'] = c
        self.n0 = c.n
        eng.bound(st, c.n, MAXCODE)
        st.regs[P.r].objs[self.off('program_t', 'code_')] = Vec('code', 'unsigned char')
        # string table
        self.vec(eng, st, 'strings', 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', (None, False))
        st.regs[P.r].objs[self.off('program_t', 'strings_')] = Vec('strings', 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >')
        # pending call fixups
        fx = Reg('fixups', 'fixups', 'seq')
        fx.es, fx.n = 16, z3.BitVec('fixups.n', 64)
        setup_seq(eng, fx, 'fixups', 'std::pair<nano::token_t const*, unsigned int>')
        fx.meta = dict(fx.meta, wrap=self.wrap_tok, unwrap=self.unwrap)
        st.regs['fixups'] = fx
        eng.bound(st, fx.n, 1 << 20)
        st.regs[V.r].objs[self.off('codegen_pass_t', 'call_fixups_')] = Vec('fixups', 'std::pair<nano::token_t const*, unsigned int>')
        # system call table
        sc = Reg('syscalls', 'syscalls', 'seq')
        sc.es, sc.n = self.t.sizes['program_t::syscall_entry_t'], z3.BitVec('syscalls.n', 64)
        sc.lazy = lambda e, s, r, off, size, ty: Fun(lambda i: z3.Function('syscalls.f%d' % off, B64, z3.BitVecSort(8 * size))(bv(i, 64)))
        sc.f[self.off('program_t::syscall_entry_t', 'name_'), 'string'] = Fun(lambda i: sv_of_sid(z3.Function('syscalls.name', B64, B64)(bv(i, 64))))
        sc.meta = {'T': 'nano::program_t::syscall_entry_t'}
        st.regs['syscalls'] = sc
        eng.bound(st, sc.n, 1 << 20)
        st.regs[P.r].objs[self.off('program_t', 'syscalls_')] = Vec('syscalls', 'nano::program_t::syscall_entry_t')
        self.linetable(eng, st, 'program.linetable')
        eng.trusted.add('the generated code stays below 2^30 bytes')
        eng.assume(st, z3.BitVec('nano.lexer_.n', 64) != 0)
        # the node and the visitor stack
        self.n = self.new(eng, st, 'n', cls)
        self.F = self.n if front_is_n else self.new(eng, st, 'F', FUN)
        s = Reg('vstack', 'vstack', 'seq')
        s.es, s.n = 8, z3.BitVec('vstack.n', 64)
        setup_seq(eng, s, 'vstack', 'nano::ast_node_t*')
        s.meta = dict(s.meta, unwrap=self.unwrap, wrap=lambda e, q, v, p: self.F if e.feasible(z3.BoolVal(True)) and must(e, bv(p.idx, 64) == 0) else self.opaque(p))
        st.regs['vstack'] = s
        eng.assume(st, z3.And(z3.UGE(s.n, 1), z3.ULT(s.n, 1 << 20)))
        st.regs[V.r].objs[self.off('ast_visitor_t', 'stack')] = Vec('vstack', 'nano::ast_node_t*')
        self.st0 = st
        return st

    def last_is_return(self, eng, st, seq):
        r = st.regs[seq]
        i = simp(bv(r.n, 64) - 1)
        rid = self.elem(eng, st, seq, i).r
        return z3.And(bv(r.n, 64) != 0, self.type_term(rid) == self.E[TYPE_OF['ast_stmt_return_t']])

    def opaque(self, p): raise Undecided('visitor stack below the top')

    def wrap_tok(self, eng, st, v, p):
        if isinstance(v, Ptr): return v
        b = self.terms.get(z3.simplify(v).sexpr())
        return b if b is not None else self.new(eng, st, 'tok:' + z3.simplify(v).sexpr(), 'token_t', term=z3.simplify(v))

    def int_inv(self, eng, st, r, cls, f, v):
        AstWorld.int_inv(self, eng, st, r, cls, f, v)
        if cls == VAR and f == 'is_const' and r.meta.get('role') == 'decl': eng.assume(st, v == 0)
        if (cls, f) == ('ast_exp_bin_op_t', 'op'): eng.assume(st, z3.Or([v == self.E[t] for t in BINOPS]))
        if cls == 'token_t' and f == 'type_' and r.meta.get('role') == 'op': eng.assume(st, z3.Or(v == self.E['TOK_SUB'], v == self.E['TOK_NOT']))
        if (cls, f) == (FUN, 'stack_size'): eng.assume(st, z3.And(v >= 0, v < (1 << 20)))
        if (cls, f) == ('lexer_t', 'line_'): pass

    # ------------------------------------------------------------ emission
    def havoc_emit(self, eng, st, tag):
        """append an arbitrary amount of code, strings, fixups, system calls; -> (regions, (start, length, layer count))"""
        c = st.wr('code')
        n = c.n
        ln = z3.BitVec('len.' + tag, 64)
        u = z3.Function('seg.' + tag, B64, B8)
        eng.bound(st, ln, 1 << 24)
        c.f[0, 1] = c.f[0, 1].range(n, ln, lambda k: u(bv(k, 64)))
        lay = len(c.f[0, 1].layers)
        c.n = simp(bv(n, 64) + ln)
        for nm in ('strings', 'fixups', 'syscalls'):
            r = st.wr(nm)
            g = z3.BitVec('grow.%s.%s' % (nm, tag), 64)
            eng.bound(st, g, 1 << 20)
            for k in list(r.f):
                if k[1] == 'string':
                    q = z3.Function('%s.sid.%s.%s' % (nm, k[0], tag), B64, B64)
                    r.f[k] = r.f[k].range(r.n, g, lambda j, q=q: sv_of_sid(q(bv(j, 64))))
                else:
                    q = z3.Function('%s.%s.%s' % (nm, k, tag), B64, z3.BitVecSort(8 * k[1]))
                    r.f[k] = r.f[k].range(r.n, g, lambda j, q=q: q(bv(j, 64)))
            r.n = simp(bv(r.n, 64) + g)
        l = st.wr('program.linetable')
        q, h = z3.Function('lines.' + tag, B64, B64), z3.Function('hasline.' + tag, B64, z3.BoolSort())
        l.f[0, 8] = l.f[0, 8].range(n, ln, lambda j: q(bv(j, 64)))
        l.f[0, 'has'] = l.f[0, 'has'].range(n, ln, lambda j: h(bv(j, 64)))
        return {'code', 'strings', 'fixups', 'syscalls', 'program.linetable'}, (n, ln, lay)

    def c_dispatch(self, eng, st, a, ins):
        """dispatch(child): nothing for null, else appends self-contained code for that child and leaves everything emitted
        before as it was (proved per node kind by these tasks, and for dispatch itself by task dispatch)"""
        eng.prove(st, isinstance(a[0], RP) and a[0].r == self.V.r, 'dispatches on itself')
        p = a[1]
        if isinstance(p, Null): return None

        def seg(s):
            q = p.p if isinstance(p, MaybeP) else p
            if not isinstance(q, RP): raise Undecided('dispatch of %r' % q)
            k = s.ghost['nseg'] = s.ghost.get('nseg', 0) + 1
            own, pos = self.havoc_emit(eng, s, '%d.%d' % (k, len(s.log)))
            s.log.append(('seg',) + pos + (q.r,))
            self.after_child(eng, s, q)
            return None
        if isinstance(p, MaybeP): return [Alt(p.c, seg), Alt(z3.Not(p.c), lambda s: None)]
        return seg(st)

    def after_child(self, eng, s, q): pass

    def loop_body(self, eng, s, loop, ev, k):
        if len(ev) != 1 or ev[0][0] != 'seg':
            eng.prove(s, False, 'one piece of code per element')
            return
        el = s.regs[ev[0][4]].meta.get('elem')
        eng.prove(s, el is not None and bv(el[1], 64) == bv(k, 64), 'elements are visited in order')
        if el is not None: self.loopvec[loop.k] = el[0]

    # ------------------------------------------------------------- decoding
    def decode(self, eng, st):
        """the emitted code as a list of items (kind, position, ...)"""
        E = self.E
        ops = {E['INS_' + n]: (n, k) for L, k in ((INS1, 0), (INS5, 1), (INS9, 2)) for n in L if 'INS_' + n in E}
        c = st.regs['code']
        f = c.f[0, 1]
        pieces = [x for x in st.log if x[0] in ('seg', 'segs')]
        for x in pieces:
            for L in f.layers[x[3]:]:
                if L[0] == 'w':
                    eng.prove(st, z3.Not(z3.ULT(bv(L[1], 64) - bv(x[1], 64), bv(x[2], 64))), 'code of a child is left alone')
        fr = z3.BitVec('frame.i', 64)
        for L in f.layers:
            if L[0] == 'w': eng.prove(st, z3.UGE(bv(L[1], 64), self.n0), 'code emitted before is left alone')
        pos = self.n0
        items = []
        pi = 0
        while True:
            if pi < len(pieces) and must(eng, bv(pieces[pi][1], 64) == bv(pos, 64)):
                x = pieces[pi]
                pi += 1
                if x[0] == 'seg': items.append(('child', pos, x[4]))
                else:
                    k = bv(st.regs[x[4]].cells[0][1], 64)
                    v = self.loopvec.get(x[4])
                    if v is None:
                        eng.prove(st, k == 0, 'a loop without body does not run')
                        items.append(('children', pos, None))
                    else:
                        eng.prove(st, k == bv(st.regs[v].n, 64), 'every element is visited')
                        items.append(('children', pos, v))
                pos = simp(bv(pos, 64) + bv(x[2], 64))
                continue
            if must(eng, bv(pos, 64) == bv(c.n, 64)):
                if pi < len(pieces): raise Undecided('code pieces out of order')
                items.append(('end', pos))
                return items
            op = self.byte(eng, st, f, pos)
            if not is_c(op) or op not in ops:
                # which opcode it is may depend on the node
                vals = [v for v in ops if eng.feasible(bv(op, 8) == v)] if not is_c(op) else []
                if len(vals) != 1: raise Undecided('opcode byte %s' % op)
                op = vals[0]
            n, k = ops[op]
            args = []
            for j in range(k):
                bs = [bv(self.byte(eng, st, f, simp(bv(pos, 64) + 1 + 4 * j + i)), 8) for i in range(4)]
                args.append(simp(z3.Concat(*reversed(bs))))
            items.append((n, pos) + tuple(args))
            pos = simp(bv(pos, 64) + 1 + 4 * k)
            if len(items) > 60: raise Undecided('code does not end')

    def byte(self, eng, st, f, pos):
        for L in reversed(f.layers):
            if L[0] == 'w':
                e = lin_eq(pos, L[1])
                if e is True: return simp(L[2])
                if e is False or not eng.feasible(e): continue
                if must(eng, e): return simp(L[2])
                raise Undecided('ambiguous code byte')
            elif L[0] == 'r':
                c = z3.ULT(bv(pos, 64) - bv(L[1], 64), bv(L[2], 64))
                if not eng.feasible(c): continue
                raise Undecided('instruction inside the code of a child')
            else: raise Undecided('code layer')
        raise Undecided('code byte below the start')

    # ------------------------------------------------------------ comparing
    def graph(self, eng, items):
        """resolve jump targets to item numbers"""
        pos = [x[1] for x in items]
        g = []
        for i, x in enumerate(items):
            if x[0] in ('JMP', 'TJMP', 'FJMP'):
                t = [j for j, p in enumerate(pos) if must(eng, bv(x[2], 32) == z3.Extract(31, 0, bv(p, 64)))]
                g.append(x[:2] + (t[0] if t else None,))
            else: g.append(x)
        return g

    def same(self, eng, st, g, spec, name):
        """bisimulation of emitted code and specification"""
        labels = {}
        sp = []
        for x in spec:
            if x[0] == 'label': labels[x[1]] = len(sp)
            else: sp.append(x)
        sp.append(('end',))
        labels[None] = len(sp) - 1

        def hop(i):
            seen = set()
            while i is not None and (g[i][0] == 'JMP' or g[i][0] == 'children' and (g[i][2] is None or must(eng, bv(st.regs[g[i][2]].n, 64) == 0))):
                if i in seen: return None
                seen.add(i)
                i = g[i][2] if g[i][0] == 'JMP' else i + 1
            return i

        def shop(j):
            seen = set()
            while sp[j][0] == 'jmp':
                if j in seen: return None
                seen.add(j)
                j = labels[sp[j][1]]
            return j
        todo = [(0, 0)]
        seen = set()
        pairs = []
        while todo:
            i, j = todo.pop()
            i, j = hop(i), shop(j)
            if (i, j) in seen: continue
            seen.add((i, j))
            if i is None:
                eng.prove(st, False, name + ': a jump leads to a wrong place')
                return None
            a, b = g[i], sp[j]
            if a[0] in ('TJMP', 'FJMP') and b[0] in ('tjmp', 'fjmp'):
                at, af = (a[2], i + 1) if a[0] == 'TJMP' else (i + 1, a[2])
                bt, bf = (labels[b[1]], j + 1) if b[0] == 'tjmp' else (j + 1, labels[b[1]])
                if at is None or af is None:
                    eng.prove(st, False, name + ': a jump leads to a wrong place')
                    return None
                todo += [(at, bt), (af, bf)]
                pairs.append((a, b, i))
                continue
            if b[0] == 'end' or a[0] == 'end':
                eng.prove(st, a[0] == b[0], name + ': code ends where it should')
                if a[0] != b[0]: return None
                continue
            if b[0] in ('child', 'children'):
                eng.prove(st, a[0] == b[0] and a[2] == b[1], name + ': evaluates %s here' % (b[1] or 'the elements'), info={'code': str([x[0] for x in g]), 'got': str(a)})
                if not (a[0] == b[0] and a[2] == b[1]): return None
                todo.append((i + 1, j + 1))
                continue
            ok = a[0] == b[0]
            eng.prove(st, ok, name + ': emits %s here' % b[0], info={'code': str([x[0] for x in g]), 'got': a[0]})
            if not ok: return None
            for x, y in zip(a[2:], b[1]):
                if callable(y): y(x, a[1])
                elif y is not None: eng.prove(st, bv(x, 32) == bv(y, 32), name + ': operand of ' + b[0])
            pairs.append((a, b, i))
            if b[0] != 'RET': todo.append((i + 1, j + 1))
        return pairs


BINOPS = {'TOK_' + k: k for k in 'ADD SUB MUL DIV MOD AND OR EQ LT GT LEQ GEQ'.split()}


class Spec:
    """what the code of one node does; built per path"""

    def __init__(self, w, eng, st, ch):
        self.w, self.eng, self.st, self.ch, self.out = w, eng, st, ch, []

    def b(self, c): return self.ch.b(c)

    def f(self, p, name, ty=PTR):
        """field of an object of the tree, as it was"""
        cls = self.w.cls_of(self.eng, self.st, p.r)
        return self.eng.load(self.st, RP(p.r, 0, self.w.off(cls, name)), ty)

    def i(self, p, name): return self.f(p, name, INT(32))

    def flag(self, p, name): return self.b(bv(self.f(p, name, INT(8)), 8) != 0)

    def child(self, p, name=None):
        q = self.f(p, name) if name else p
        if isinstance(q, MaybeP):
            if not self.b(q.c): return
            q = q.p
        if isinstance(q, Null): return
        self.out.append(('child', q.r))

    def some(self, p, name):
        q = self.f(p, name)
        return not isinstance(q, Null) and (not isinstance(q, MaybeP) or self.b(q.c))

    def size(self, p, name):
        cls = self.w.cls_of(self.eng, self.st, p.r)
        v = the_obj(self.eng, self.st, RP(p.r, 0, self.w.off(cls, name)), 'vector', VEC_T[cls, name])
        return v.seq, z3.Extract(31, 0, bv(self.st.regs[v.seq].n, 64))

    def children(self, p, name):
        seq, n = self.size(p, name)
        if self.b(n == 0): return
        self.out.append(('children', seq))

    def ins(self, n, *args, tok=None): self.out.append((n, args, tok))
    def jmp(self, l, tok=None): self.out.append(('jmp', l, tok))
    def tjmp(self, l, tok=None): self.out.append(('tjmp', l, tok))
    def fjmp(self, l, tok=None): self.out.append(('fjmp', l, tok))
    def label(self, l): self.out.append(('label', l))

    def is_(self, p, *cls): return self.b(self.w.is_cls(self.st, p, *cls))

    def var(self, op, d, tok):
        g = self.b(self.i(d, 'scope') == self.w.E['e_global'])
        self.ins(op + ('G' if g else 'V'), self.i(d, 'offset'), tok=tok)

    def text(self, want):
        """operand: index of exactly this text in the string table"""
        def chk(x, pos):
            r = self.st.regs['strings']
            i = z3.ZeroExt(32, bv(x, 32))
            self.eng.prove(self.st, z3.ULT(i, bv(r.n, 64)), 'string operand is in the table')
            e = str_eq(self.eng, self.st, r.f[0, 'string'].read(simp(i)), want)
            self.eng.prove(self.st, e, 'string operand is the text of the literal')
        return chk

    def sysidx(self, want):
        def chk(x, pos):
            r = self.st.regs['syscalls']
            i = z3.ZeroExt(32, bv(x, 32))
            self.eng.prove(self.st, z3.ULT(i, bv(r.n, 64)), 'system call operand is in the table')
            e = str_eq(self.eng, self.st, r.f[self.w.off('program_t::syscall_entry_t', 'name_'), 'string'].read(simp(i)), want)
            self.eng.prove(self.st, e, 'system call operand is that system call')
        return chk

    def fixup(self, func, at):
        """operand to be filled in with the start of this function: exactly one fixup for it is recorded"""
        def chk(x, pos):
            r = self.st.regs['fixups']
            tok = self.f(func, 'token')
            if isinstance(tok, MaybeP): tok = tok.p
            i = simp(bv(r.n, 64) - 1)
            t, o = r.f[0, 8].read(i), r.f[8, 4].read(i)
            t = t if isinstance(t, Ptr) else self.w.wrap_tok(self.eng, self.st, t, None)
            t = t.p if isinstance(t, MaybeP) else t
            self.eng.prove(self.st, isinstance(t, RP) and t.r == tok.r, 'the call is bound to the function it names')
            self.eng.prove(self.st, bv(o, 32) == z3.Extract(31, 0, bv(pos, 64) + at), 'the fixup is at the operand of the call')
        return chk

    def string(self, p, name):
        cls = self.w.cls_of(self.eng, self.st, p.r)
        return the_obj(self.eng, self.st, RP(p.r, 0, self.w.off(cls, name)), 'string')


NP = 'nano::ast_node_t*'
VEC_T = {('ast_exp_array_init_t', 'expr'): NP, ('ast_exp_call_t', 'args'): NP, (BLK, 'nodes'): NP, ('ast_program_t', 'children'): NP,
         (FUN, 'args'): 'nano::ast_decl_var_t*', (FUN, 'locals'): 'nano::ast_decl_var_t*'}


def s_lit_str(S, n): S.ins('NEW_STR', S.text(S.string(n, 'value')), tok=S.f(n, 'token'))
def s_lit_float(S, n): S.ins('NEW_FLT', z3.BitVec('n.val', 32), tok=S.f(n, 'token'))
def s_lit_var(S, n): S.ins('NEW_INT', S.i(n, 'val'), tok=S.f(n, 'token'))
def s_none(S, n): S.ins('NEW_NONE', tok=S.f(n, 'token'))


def s_ident(S, n):
    d = S.f(n, 'decl')
    if S.is_(d, VAR): S.var('GET', d, S.f(n, 'name'))
    elif S.flag(d, 'is_syscall'): S.ins('NEW_SCALL', S.sysidx(S.string(d, 'name')), tok=S.f(n, 'name'))
    else: S.ins('NEW_FUNC', S.fixup(d, 1), tok=S.f(n, 'name'))


def s_member(S, n):
    S.var('GET', S.f(n, 'decl'), S.f(n, 'name'))
    S.ins('GETM', S.text(S.string(S.f(n, 'member'), 'str_')), tok=S.f(n, 'member'))


def s_array_init(S, n):
    S.children(n, 'expr')
    S.ins('ARY_INIT', S.size(n, 'expr')[1], tok=S.f(n, 'name'))


def s_deref(S, n):
    S.child(n, 'index')
    S.child(n, 'lhs')
    S.ins('DEREF', tok=S.f(n, 'token'))


def s_call(S, n):
    S.children(n, 'args')
    k = S.size(n, 'args')[1]
    c = S.f(n, 'callee')
    if S.is_(c, 'ast_exp_ident_t'):
        d = S.f(c, 'decl')
        if S.is_(d, FUN):
            if S.flag(d, 'is_syscall'): S.ins('SCALL', k, S.sysidx(S.string(d, 'name')), tok=S.f(c, 'name'))
            else: S.ins('CALL', k, S.fixup(d, 5), tok=S.f(n, 'token'))
            return
    S.child(n, 'callee')
    S.ins('ICALL', k, tok=S.f(n, 'token'))


def s_stmt_call(S, n):
    S.child(n, 'expr')
    S.ins('POP', 1, tok=S.f(S.f(n, 'expr'), 'token'))


def s_bin(S, n):
    S.child(n, 'left')
    S.child(n, 'right')
    op = S.i(n, 'op')
    for t, k in BINOPS.items():
        if S.b(op == S.w.E[t]): return S.ins(k, tok=S.f(n, 'token'))


def s_unary(S, n):
    S.child(n, 'child')
    t = S.f(n, 'op')
    S.ins('NEG' if S.b(S.i(t, 'type_') == S.w.E['TOK_SUB']) else 'NOT', tok=t)


def s_if(S, n):
    S.child(n, 'expr')
    S.fjmp('else', S.f(n, 'token'))
    S.child(n, 'then_block')
    S.jmp('end')
    S.label('else')
    S.child(n, 'else_block')
    S.label('end')


def s_block(S, n): S.children(n, 'nodes')


def s_while(S, n):
    S.label('top')
    S.child(n, 'expr')
    S.fjmp('end', S.f(n, 'token'))
    S.child(n, 'body')
    S.jmp('top')
    S.label('end')


def s_for(S, n):
    d, t = S.f(n, 'decl'), S.f(n, 'token')
    S.child(n, 'start')
    S.var('SET', d, S.f(n, 'name'))
    S.label('top')
    S.var('GET', d, t)
    S.child(n, 'end')
    S.ins('LT', tok=t)
    S.fjmp('end', t)
    S.child(n, 'body')
    S.var('GET', d, t)
    S.ins('NEW_INT', 1, tok=t)
    S.ins('ADD', tok=t)
    S.var('SET', d, t)
    S.jmp('top')
    S.label('end')


def frame(S): return S.size(S.w.F, 'args')[1] + S.i(S.w.F, 'stack_size')


def s_return(S, n):
    if S.some(n, 'expr'): S.child(n, 'expr')
    else: S.ins('NEW_NONE', tok=S.f(n, 'token'))
    S.ins('RET', frame(S), tok=S.f(n, 'token'))


def s_assign_var(S, n):
    S.child(n, 'expr')
    S.var('SET', S.f(n, 'decl'), S.f(n, 'name'))


def s_assign_member(S, n):
    S.child(n, 'expr')
    S.var('GET', S.f(n, 'decl'), S.f(n, 'name'))
    S.ins('SETM', S.text(S.string(S.f(n, 'member'), 'str_')), tok=S.f(n, 'member'))


def s_assign_array(S, n):
    S.child(n, 'expr')
    S.child(n, 'index')
    S.var('GET', S.f(n, 'decl'), S.f(n, 'name'))
    S.ins('SETA', tok=S.f(n, 'name'))


def s_decl_var(S, n):
    if S.b(S.i(n, 'scope') == S.w.E['e_global']): return
    if S.flag(n, 'is_const'): return
    if S.some(n, 'expr'): S.child(n, 'expr')
    else: S.ins('NEW_NONE', tok=S.f(n, 'name'))
    S.ins('SETV', S.i(n, 'offset'), tok=S.f(n, 'name'))


SPECS = {'ast_exp_lit_str_t': s_lit_str, 'ast_exp_lit_float_t': s_lit_float, 'ast_exp_lit_var_t': s_lit_var, 'ast_exp_none_t': s_none,
         'ast_exp_ident_t': s_ident, 'ast_exp_member_t': s_member, 'ast_exp_array_init_t': s_array_init, 'ast_exp_deref_t': s_deref,
         'ast_exp_call_t': s_call, 'ast_stmt_call_t': s_stmt_call, 'ast_exp_bin_op_t': s_bin, 'ast_exp_unary_op_t': s_unary,
         'ast_stmt_if_t': s_if, BLK: s_block, 'ast_stmt_while_t': s_while, 'ast_stmt_for_t': s_for, 'ast_stmt_return_t': s_return,
         'ast_stmt_assign_var_t': s_assign_var, 'ast_stmt_assign_member_t': s_assign_member, 'ast_stmt_assign_array_t': s_assign_array, VAR: s_decl_var}


def t_visit(cls, lines=False):
    short = re.sub('^ast_(exp_|stmt_)?|_t$', '', cls)

    def body(T, setup):
        w = CgWorld(T)
        eng = setup(w.engine())
        st = w.make(eng, cls)
        if cls == VAR: eng.assume(st, eng.load(st, RP(w.n.r, 0, w.off(VAR, 'scope')), INT(32)) != w.E['e_arg'])
        if cls == 'ast_exp_array_init_t':
            seq = the_obj(eng, st, RP(w.n.r, 0, w.off(cls, 'expr')), 'vector', NP).seq
            eng.assume(st, bv(st.regs[seq].n, 64) != 0)
        pre(w, eng, st, cls)
        eng.canary = False
        eng.spec_paths = 0

        def end(s, k, v):
            if k != 'ret':
                eng.prove(s, False, short + ': does not throw')
                return
            eng.canary = True
            items = w.graph(eng, w.decode(eng, s))

            def one(ch):
                S = Spec(w, eng, s, ch)
                SPECS[cls](S, w.n)
                if not lines: w.same(eng, s, items, S.out, short)
                else: line_check(w, eng, s, items, S.out, short)
            eng.spec_paths += spec_paths(eng, s, one)
        eng.on_end = end
        eng.start(st, find1(T, r'^nano::codegen_pass_t::visit\(nano::%s\*\)' % cls), [w.V, w.n])
        eng.explore(st)
        return eng
    return Task(('lines:' if lines else 'codegen:') + short, body, info={'native': ('lines',) if lines else ('flow', 'full')})


def pre(w, eng, st, cls):
    """facts the earlier phases establish"""
    if cls in ('ast_exp_ident_t', 'ast_exp_call_t'):
        # a named system call is in the table (pregen_functions_t); a direct call has the declared number of arguments (sema_num_args_t)
        j = z3.BitVec('table.j', 64)
        d = RP('n.decl') if cls == 'ast_exp_ident_t' else RP('n.callee.decl')
        if cls == 'ast_exp_call_t': w.new(eng, st, 'n.callee', EXPR, role='callee', parent='n')
        w.new(eng, st, d.r, (VAR, FUN), role='decl')
        eng.ghost_terms.append(j)
        sid = z3.BitVec(d.r + '.name.sid', 64)
        eng.assume(st, z3.And(z3.ULT(j, st.regs['syscalls'].n), z3.Implies(bv(z3.BitVec(d.r + '.is_syscall', 8), 8) != 0, z3.Function('syscalls.name', B64, B64)(j) == sid)))
        if cls == 'ast_exp_call_t':
            eng.assume(st, z3.Or(z3.BitVec(d.r + '.is_varargs', 8) != 0, z3.BitVec(d.r + '.args.n', 64) == z3.BitVec('n.args.n', 64)))


def layer_read(eng, f, k):
    """value at k, resolving which update it is under where the bounds decide it"""
    ls = f.layers
    for n in range(len(ls), 0, -1):
        L = ls[n - 1]
        if L[0] == 'w':
            e = lin_eq(k, L[1])
            if e is True or e is not False and lin_decide(e, eng.bounds) is True: return L[2]
            if e is False or lin_decide(e, eng.bounds) is False: continue
        elif L[0] == 'r':
            if lin_decide(z3.ULT(bv(k, 64) - bv(L[1], 64), bv(L[2], 64)), eng.bounds) is False: continue
        return Fun(f.base, ls[:n]).read(k)
    return f.base(k)


def line_check(w, eng, st, items, spec, short):
    pairs = w.same(eng, st, items, spec, short)
    if pairs is None: return
    r = st.regs['program.linetable']
    for a, b, i in pairs:
        tok = b[2] if len(b) > 2 else None
        if isinstance(tok, MaybeP):
            if not must(eng, tok.c): continue
            tok = tok.p
        if not isinstance(tok, RP): continue
        want = eng.load(st, RP(tok.r, 0, w.off('token_t', 'line_')), INT(64))
        k = simp(z3.ZeroExt(32, z3.Extract(31, 0, bv(a[1], 64))))
        eng.prove(st, layer_read(eng, r.f[0, 'has'], k), short + ': %s has a line' % a[0])
        eng.prove(st, bv(layer_read(eng, r.f[0, 8], k), 64) == bv(want, 64), short + ': %s is on the line of its source' % a[0])


# ------------------------------------------------------------- functions
FT = 'nano::function_t'


def add_functions(w, eng, st):
    """the function table (pregen_functions_t made one entry per function of the program)"""
    r = Reg('functions', 'functions', 'seq')
    r.es, r.n = w.t.sizes['function_t'], z3.BitVec('functions.n', 64)
    r.lazy = lambda e, s, r, off, size, ty: Fun(lambda i: z3.Function('functions.f%d' % off, B64, z3.BitVecSort(8 * size))(bv(i, 64)))
    r.f[w.off('function_t', 'name_'), 'string'] = Fun(lambda i: sv_of_sid(z3.Function('functions.name', B64, B64)(bv(i, 64))))
    for f in ('code_start_', 'code_end_'): r.f[w.off('function_t', f), 4] = Fun(lambda i, f=f: z3.Function('functions.' + f, B64, B32)(bv(i, 64)))
    r.meta = {'T': FT}
    st.regs['functions'] = r
    eng.bound(st, r.n, 1 << 20)
    st.regs[w.P.r].objs[w.off('program_t', 'functions_')] = Vec('functions', FT)


def t_func(init, lines=False):
    def body(T, setup):
        w = CgWorld(T)
        eng = setup(w.engine())
        st = w.make(eng, FUN, front_is_n=True)
        add_functions(w, eng, st)
        sid = z3.BitVec('n.name.sid', 64)
        is_init = str_eq(eng, st, w.text('n.name'), sv_lit(b'@init'))
        eng.assume(st, is_init if init else z3.Not(is_init))
        j = z3.BitVec('func.j', 64)
        fname = z3.Function('functions.name', B64, B64)
        x = z3.BitVec('q!j', 64)
        eng.assume(st, z3.And(z3.ULT(j, st.regs['functions'].n), fname(j) == sid))
        # names of functions are unique (sema_multi_decls_t)
        st.quant.append(lambda i: z3.Implies(z3.And(z3.ULT(bv(i, 64), bv(st.regs['functions'].n, 64)), fname(bv(i, 64)) == sid), bv(i, 64) == j))
        eng.ghost_terms.append(j)
        if init:
            eng.assume(st, z3.BitVec('n.args.n', 64) == 0)
            w.new(eng, st, 'ast', 'ast_t')
            po = w.off('ast_t', 'program') + w.off('ast_program_t', 'children')
            w.tree['ast_t', None] = ((FUN, VAR), True)
            seq = w.vec(eng, st, 'program.children', NP, ((FUN, VAR), True))
            st.regs['ast'].objs[po] = Vec(seq, NP)
            def cond(s, i):
                rid = w.elem(eng, s, seq, i).r
                return z3.And(w.type_term(rid) == w.E[TYPE_OF[VAR]], w.sym(rid, 'is_const', 8) == 0)
            eng.counts = [(seq, cond)]
        eng.lasts = [lambda s, seq, i: s.regs[seq].meta.get('wrap') and w.type_term(w.elem(eng, s, seq, i).r) == w.E[TYPE_OF['ast_stmt_return_t']]]
        eng.canary = False

        def end(s, k, v):
            if k != 'ret':
                eng.prove(s, False, 'does not throw')
                return
            eng.canary = True
            if must(eng, z3.BitVec('n.is_syscall', 8) != 0):
                eng.prove(s, must(eng, bv(s.regs['code'].n, 64) == w.n0), 'no code for a host function')
                return
            f = s.regs['functions']
            eng.inst(s, j)
            g = lambda m, i: bv(f.f[w.off('function_t', m), 4].read(i), 32)
            lo = lambda t: z3.Extract(31, 0, bv(t, 64))
            eng.prove(s, g('code_start_', j) == lo(w.n0), 'the function starts at its code')
            eng.prove(s, g('code_end_', j) == lo(s.regs['code'].n), 'the function ends after its code')
            o = z3.BitVec('other', 64)
            for m in ('code_start_', 'code_end_'):
                eng.prove(s, z3.Implies(z3.And(z3.ULT(o, bv(f.n, 64)), o != j), g(m, o) == z3.Function('functions.' + m, B64, B32)(o)), 'other functions keep their code')
            sm = [r for r in s.regs if '.strmap' in r and r.startswith('this')]
            eng.prove(s, len(sm) == 1 and bv(s.regs[sm[0]].f[0, 4].read(sid), 32) == lo(w.n0), 'calls of this name lead to its code')
            items = w.graph(eng, w.decode(eng, s))

            def one(ch):
                S = Spec(w, eng, s, ch)
                n = w.n
                if init:
                    cnt = z3.Function('count.program.children', B64, B32)
                    S.ins('GLOBALS', cnt(bv(s.regs['program.children'].n, 64)))
                    S.child(n, 'body')
                    S.ins('NEW_INT', None)
                    S.ins('RET', frame(S))
                else:
                    if S.b(S.i(n, 'stack_size') > 0): S.ins('LOCALS', S.i(n, 'stack_size'), tok=S.f(n, 'token'))
                    S.child(n, 'body')
                    S.ins('NEW_INT', 0, tok=S.f(n, 'end'))
                    S.ins('RET', frame(S), tok=S.f(n, 'end'))
                    if items[-2][0] != 'RET':
                        # the end is never reached when the last statement is a return
                        b = S.f(n, 'body')
                        some = not isinstance(b, MaybeP) or S.b(b.c)
                        last = False
                        if some:
                            q = b.p if isinstance(b, MaybeP) else b
                            seq, _ = S.size(q, 'nodes')
                            last = w.last_is_return(eng, s, seq)
                        eng.prove(s, last, 'a function whose last statement is not a return ends with one')
                        del S.out[-2:]
                if lines: line_check(w, eng, s, items, S.out, 'function')
                else: w.same(eng, s, items, S.out, 'function')
            spec_paths(eng, s, one)
        eng.on_end = end
        eng.start(st, find1(T, r'^nano::codegen_pass_t::visit\(nano::%s\*\)' % FUN), [w.V, w.n])
        eng.explore(st)
        return eng
    return Task(('lines' if lines else 'codegen') + ':function' + ('@init' if init else ''), body, info={'native': ('lines',) if lines else ('full', 'names')})


class FixLoop:
    """the loop that fills in call targets, cut at an arbitrary iteration"""
    events = False

    def __init__(self, w, eng, st, key):
        self.w, self.eng = w, eng
        self.k = 'ghost.fix'
        if self.k in st.regs: raise Undecided('more than one loop over the fixups')
        r = Reg(self.k, self.k, 'cells')
        r.cells[0] = (8, z3.BitVecVal(0, 64))
        r.meta = {}
        st.regs[self.k] = r

    def havoc(self, eng, st, sh):
        c = sh.wr('code')
        u = z3.Function('code.fixing', B64, B8)
        c.f[0, 1] = Fun(lambda i: u(bv(i, 64)))
        self.n = c.n
        fx, n = sh.regs['fixups'], bv(c.n, 64)
        at = eng.seq_field(sh, sh.regs['fixups'], 8, 4, INT(32))
        # every fixup is the operand of an emitted instruction: proved where fixups are recorded (calls and names of functions)
        sh.quant = sh.quant + [lambda i: z3.Implies(z3.ULT(bv(i, 64), bv(fx.n, 64)), z3.ULE(z3.ZeroExt(32, bv(at.read(bv(i, 64)), 32)) + 4, n))]
        return {'code'}

    def settle(self, eng, st, sh, phis, backs, holds): pass

    def back(self, eng, s, collect):
        k = bv(s.regs[self.k].cells[0][1], 64)
        if not collect:
            w = self.w
            fx = s.regs['fixups']
            at = z3.ZeroExt(32, bv(fx.f[8, 4].read(k), 32))
            t = w.wrap_tok(eng, s, fx.f[0, 8].read(k), None)
            t = t.p if isinstance(t, MaybeP) else t
            sid = w.sym(t.r, 'str_.sid', 64)
            sm = [r for r in s.regs if '.strmap' in r and r.startswith('this')]
            if len(sm) != 1: eng.prove(s, False, 'call targets come from the map of functions')
            else:
                v = bv(s.regs[sm[0]].f[0, 4].read(sid), 32)
                c = s.regs['code']
                i = z3.BitVec('any.byte', 64)
                old = z3.Function('code.fixing', B64, B8)
                for j in range(4): eng.prove(s, bv(c.f[0, 1].read(simp(at + j)), 8) == z3.Extract(8 * j + 7, 8 * j, v), 'a call leads to the start of the function it names')
                eng.prove(s, z3.Implies(z3.UGE(i - at, 4), bv(c.f[0, 1].read(i), 8) == old(i)), 'only the operand of the call is filled in')
                eng.prove(s, bv(c.n, 64) == bv(self.n, 64), 'filling in calls emits no code')
        s.wr(self.k).cells[0] = (8, simp(k + 1))


def t_program():
    def body(T, setup):
        w = CgWorld(T)
        w.cut_hook = lambda eng, st, key, phis: (Loop if key in eng.event_loops else FixLoop)(w, eng, st, key)
        eng = setup(w.engine())
        st = w.make(eng, 'ast_program_t')
        eng.canary = False

        def end(s, k, v):
            if k != 'ret':
                eng.prove(s, False, 'does not throw')
                return
            eng.canary = True
            ps = [x for x in s.log if x[0] in ('seg', 'segs')]
            kids = the_obj(eng, s, RP('n', 0, w.off('ast_program_t', 'children')), 'vector', NP).seq
            if not ps: eng.prove(s, bv(s.regs[kids].n, 64) == 0, 'program: visits every declaration')
            else:
                ok = len(ps) == 1 and ps[0][0] == 'segs' and w.loopvec.get(ps[0][4]) in (kids, None)
                eng.prove(s, ok, 'program: visits every declaration once, in order')
                if ok: eng.prove(s, bv(s.regs[ps[0][4]].cells[0][1], 64) == bv(s.regs[kids].n, 64), 'program: visits every declaration')
            if 'ghost.fix' not in s.regs: eng.prove(s, bv(s.regs['fixups'].n, 64) == 0, 'program: fills in every call')
            else: eng.prove(s, bv(s.regs['ghost.fix'].cells[0][1], 64) == bv(s.regs['fixups'].n, 64), 'program: fills in every call')
        eng.on_end = end
        eng.start(st, find1(T, r'^nano::codegen_pass_t::visit\(nano::ast_program_t\*\)'), [w.V, w.n])
        eng.explore(st)
        return eng
    return Task('codegen:program', body, info={'native': ('full', 'names')})


def t_getline():
    def body(T, setup):
        w = AstWorld(T)
        eng = setup(w.engine())
        st = State()
        P = w.new(eng, st, 'program', 'program_t')
        w.linetable(eng, st, 'program.linetable')
        pc = z3.BitVec('pc', 32)
        eng.canary = False
        l0 = st.regs['program.linetable']

        def end(s, k, v):
            eng.canary = True
            i = z3.ZeroExt(32, pc)
            has, at = l0.f[0, 'has'].read(i), bv(l0.f[0, 8].read(i), 64)
            if k != 'ret': return eng.prove(s, False, 'get_line: does not throw')
            eng.prove(s, z3.Implies(has, bv(v, 64) == at), 'get_line: the line recorded for the instruction')
            eng.prove(s, z3.Implies(z3.Not(has), bv(v, 64) == z3.BitVecVal(-1, 64)), 'get_line: no line when none is recorded')
        eng.on_end = end
        eng.start(st, find1(T, r'^nano::program_t::get_line\(unsigned int\) const'), [P, pc])
        eng.explore(st)
        return eng
    return Task('lines:get_line', body, info={'native': ('lines',)})


def line_tasks(): return [t_visit(c, True) for c in SPECS if c not in (BLK,)] + [t_func(False, True), t_func(True, True), t_getline()]


def cg_tasks():
    return [t_visit(c) for c in SPECS] + [t_func(False), t_func(True), t_program()]
