"""The parser (C12): every parse function against the grammar, over any token sequence.

The token list is arbitrary (it ends with its only end-of-file token).  The grammar is written below as a predictive reader over
token positions; the recursive nonterminals are under contract and leave an entry (kind, node, from, to) in the ghost log, all
other helpers are executed.  Lists of statements, arguments and operators of any length are read through loop invariants."""
import re
import z3
from .sx import *
from .sx import Reg
from .ast import *
from .ast import AstWorld, Choice, spec_paths, must, FUN, VAR, BLK, EXPR, STMT, TYPE_OF, ERR_TI
from .models import Vec, SV, setup_seq, the_obj, set_obj, str_eq, sv_of_sid, get_sv, m_vector, tsize
from .ir import Unsupported, PTR, INT
from .task import Task
from .vmtasks import find1

TS, TK = 'token_stream_t', 'token_t'
M, P0 = z3.BitVec('toks.n', 64), z3.BitVec('pos', 32)
J = z3.BitVec('any.elem', 64)
SKIP = z3.Function('spec.skip', B64, B64)
BASE = 1 << 40
BINARY = ('ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'AND', 'OR', 'EQ', 'LT', 'GT', 'LEQ', 'GEQ')
LEVEL = {'AND': 1, 'OR': 1, 'NOT': 2, 'LT': 3, 'GT': 3, 'LEQ': 3, 'GEQ': 3, 'EQ': 3, 'ADD': 4, 'SUB': 4, 'MUL': 5, 'DIV': 5, 'MOD': 5}
NPV, TPV, VPV = 'nano::ast_node_t*', 'nano::token_t const*', 'nano::ast_decl_var_t*'


def u64(x): return z3.ZeroExt(32, bv(x, 32))


class SpecErr(Exception):
    """the text is not in the grammar: at token position pos (or: the nested construct says so)"""
    def __init__(self, pos, *also): self.pos, self.also = pos, also


class Nested(Exception):
    pass


class Mismatch(Exception):
    pass


class Node:
    def __init__(self, cls, **f): self.cls, self.f = cls, f


class ListOf:
    def __init__(self, items, T=NPV): self.items, self.T = items, T


class Loop:
    """a loop of the parser, at an arbitrary turn"""
    events = True
    writes = True
    nolin = True

    def __init__(self, w, eng, st, key):
        self.w, self.key, self.entry = w, key, st.fork()
        n = st.ghost.get('nloop', 0)
        st.ghost['nloop'] = n + 1
        self.k = 'loop%d.%s' % (n, key[1])
        self.nlog = len(st.log)
        self.ok, self.silent, self.vecs = None, True, set()

    def havoc(self, eng, st, sh):
        sh.log.append(('loop', self.k))
        self.sh = sh
        return self.w.loop_havoc(eng, st, sh, self)

    def cands(self, eng, st, sh, hv, cur):
        f = lambda s: SKIP(self.w.pos(s)) == SKIP(self.w.pos(st))
        g = lambda s: z3.UGE(self.w.pos(s), self.w.pos(st))
        h = lambda s: z3.ULT(self.w.pos(s), M)
        out = [('pos', z3.BoolVal(True), x(sh), lambda s, pv, x=x: x(s)) for x in (f, g)] + [('pos', h(st), h(sh), lambda s, pv: h(s))]
        return out + self.w.loop_cands(eng, st, sh, self)

    def settle(self, eng, st, sh, phis, backs, holds): pass

    def final(self, eng, sh):
        self.sh = sh.fork()
        self.w.loops[self.k] = self

    def back(self, eng, s, collect):
        if collect: return
        ev = self.w.trim(s.log[self.nlog + 1:])
        self.w.progress(eng, s, self)
        vs = [v for v in s.regs if v in self.sh.regs and v not in self.w.QUIET and s.regs[v].kind == 'seq' and not same_term(s.regs[v].n, self.sh.regs[v].n)]
        if ev or vs: self.silent = False
        self.vecs |= set(vs)
        ok = self.w.turns(eng, s, self, ev, vs)
        self.ok = ok if self.ok is None else self.ok & ok

    def pos(self): return self.w.pos(self.sh)


def same_term(a, b):
    if is_c(a) or is_c(b): return is_c(a) and is_c(b) and a == b
    return a is b or a.eq(b)


class ParseWorld(AstWorld):
    QUIET = ('ast.allocs_', 'toks')
    RANK = {'func': 9, 'stmt': 8, 'expr': 7, 'ex': 6, 'operand': 5}

    def __init__(self, T, me, kinds=('expr', 'stmt', 'func', 'operand', 'ex', 'op_push')):
        AstWorld.__init__(self, T)
        self.me = me
        self.K = {n[4:]: v for n, v in self.E.items() if n.startswith('TOK_')}
        self.loops = {}
        C = lambda rx, f: (re.compile(rx), f)
        fn = {'expr': r'parse_expr_\(\)', 'stmt': r'parse_stmt_\(\)', 'func': r'parse_function_\(', 'operand': r'parse_operand_\(\)', 'ex': r'parse_expr_ex_\(', 'op_push': r'op_push_\('}
        self.contracts = [C(r'^nano::parser_t::' + fn[k], getattr(self, 'c_' + k)) for k in kinds]
        self.contracts += [C(r'^nano::nano_t::lexer\(\)', self.c_lexer), C(r'^std::vector<.*::vector\(\)', self.c_vec), C(r'^nano::error_t::operator=\(', self.c_copyerr),
                           C(r'^nano::source_manager_t::imported_path\(', self.c_path), C(r'^nano::source_manager_t::load\(', self.c_load)]

    def engine(self, **kw):
        e = AstWorld.engine(self, **kw)
        e.cut_loops = True
        e.sum_all = True
        e.pure = re.compile(r'^nano::parser_t::op_type_\(|^nano::token_t::is_\w+\(\) const')
        e.nonul = lambda t: 'toks.text.sid' in t
        e.trusted.add('the path of an import holds no NUL character')
        return e

    def cut_hook(self, eng, st, key, phis): return Loop(self, eng, st, key)
    def loop_havoc(self, eng, st, sh, loop): return ()
    def loop_cands(self, eng, st, sh, loop): return []

    def make(self, eng):
        st = State()
        self.V = self.new(eng, st, 'this', 'parser_t')
        self.N = self.new(eng, st, 'nano', 'nano_t')
        self.links['parser_t', 'nano_'] = self.N
        self.links['nano_t', 'ast_'] = lambda e, s, r: self.new(e, s, 'ast', 'ast_t')
        self.links['nano_t', 'errors_'] = lambda e, s, r: self.new(e, s, 'errors', 'error_manager_t')
        self.links['nano_t', 'sources_'] = lambda e, s, r: self.new(e, s, 'sources', 'source_manager_t')
        self.links['nano_t', 'source_'] = lambda e, s, r: self.new(e, s, 'source', 'source_t')
        t = Reg('toks', 'toks', 'seq')
        t.es, t.n = self.t.sizes[TK], M
        setup_seq(eng, t, 'toks', 'nano::token_t')
        o = self.off(TK, 'str_')
        t.f[o, 'string'] = Fun(lambda i: sv_of_sid(z3.Function('toks.text.sid', B64, B64)(bv(i, 64))))
        st.regs['toks'] = t
        x = Reg('lexer', 'lexer', 'cells')
        b = self.off('lexer_t', 'stream_')
        self.ib = b + self.off(TS, 'index_')
        x.meta = {}
        x.cells = {b + self.off(TS, 'nano_'): (8, self.N), self.ib: (4, P0)}
        for a in (0, 4): x.cells[b + self.off(TS, 'line_') + a] = (4, z3.BitVec('ts.line%d' % a, 32))
        x.objs[b + self.off(TS, 'stream_')] = Vec('toks', 'nano::token_t')
        st.regs['lexer'] = x
        eng.bound(st, M, 1 << 30)
        eng.trusted.add('a program has fewer than 2^30 tokens')
        self.kind(eng, st, 0)
        eng.assume(st, z3.And(z3.ULT(u64(P0), M), self.k(M - 1) == self.K['EOF']))
        st.quant.append(lambda i: z3.Implies(z3.And(z3.ULT(bv(i, 64), M), self.k(i) == self.K['EOF']), bv(i, 64) == M - 1))
        st.quant.append(self.skip_ax)
        self.stacks(eng, st)
        return st

    # ----------------------------------------------------------- tokens
    def kind(self, eng, st, i): return eng.seq_field(st, st.regs['toks'], self.off(TK, 'type_'), 4, INT(32)).read(bv(i, 64))
    def k(self, i): return z3.Function('toks.f%d_4' % self.off(TK, 'type_'), B64, B32)(bv(i, 64))
    def is_(self, i, *names): return z3.Or([self.k(i) == self.K[n] for n in names])
    def isbin(self, i): return self.is_(i, *BINARY)

    def skip_ax(self, i):
        i = bv(i, 64)
        return z3.Implies(z3.ULT(i, M), z3.If(self.k(i) == self.K['EOL'], SKIP(i) == SKIP(i + 1), SKIP(i) == i))

    def level(self, i):
        r = z3.BitVecVal(0, 32)
        for n, l in LEVEL.items(): r = z3.If(self.k(i) == self.K[n], z3.BitVecVal(l, 32), r)
        return r

    def pos(self, s): return u64(s.regs['lexer'].cells[self.ib][1])

    def setpos(self, s, p): s.wr('lexer').cells[self.ib] = (4, p)

    # ----------------------------------------------------------- stacks
    def stacks(self, eng, st):
        for nm, f, T in (('ops', 'op_stack_', TPV), ('exps', 'exp_stack_', NPV)):
            r = Reg(nm, nm, 'seq')
            r.es, r.n = 8, z3.BitVec(nm + '.n', 64)
            setup_seq(eng, r, nm, T)
            r.meta = dict(r.meta, **(self.tokmeta() if nm == 'ops' else self.nodemeta(nm)))
            st.regs[nm] = r
            eng.bound(st, r.n, 1 << 20)
            st.regs['this'].objs[self.off('parser_t', f)] = Vec(nm, T)
        eng.seq_field(st, st.regs['ops'], 0, 8, PTR)
        eng.seq_field(st, st.regs['exps'], 0, 8, PTR)
        st.quant.append(lambda i: self.op_inv(z3.Function('ops.f0_8', B64, B64)(bv(i, 64))))
        eng.trusted.add('fewer than 2^20 operators or operands are pending in one expression')

    def op_inv(self, t): return z3.And(z3.ULT(t - BASE, M), self.is_(t - BASE, 'NOT', *BINARY))

    def tokmeta(self):
        def unwrap(eng, st, v):
            if isinstance(v, RP) and v.r == 'toks': return simp(bv(v.idx, 64) + BASE)
            raise Undecided('token pointer %r' % (v,))
        return dict(wrap=lambda eng, st, v, p: v if isinstance(v, Ptr) else RP('toks', simp(v - BASE)), unwrap=unwrap)

    def nodemeta(self, nm):
        def wrap(eng, st, v, p):
            if isinstance(v, Ptr): return v
            v = z3.simplify(v)
            back = self.terms.get(v.sexpr())
            if back is not None: return back
            return self.new(eng, st, 'elt:' + v.sexpr().replace('\n', ''), EXPR, role=nm, term=v)

        def unwrap(eng, st, v):
            t = st.regs[v.r].meta.get('term') if isinstance(v, RP) and v.r in st.regs and st.regs[v.r].meta else None
            return t if t is not None else self.unwrap(eng, st, v)
        return dict(wrap=wrap, unwrap=unwrap)

    # -------------------------------------------------------- contracts
    def c_lexer(self, eng, st, a, ins):
        """nano_t::lexer: the lexer of the source being compiled"""
        return RP('lexer')

    def c_vec(self, eng, st, a, ins):
        """std::vector(): empty"""
        m_vector(eng, st, a, ins)
        v = the_obj(eng, st, a[0], 'vector')
        r = st.wr(v.seq)
        r.meta = dict(r.meta or {}, **self.nodemeta(v.seq))
        r.f[0, 8] = Fun(lambda i: z3.Function(v.seq + '.f0_8', B64, B64)(bv(i, 64)))
        return None

    def c_copyerr(self, eng, st, a, ins):
        """error_t = error_t: the report is handed to the caller"""
        st.log.append(('report', a[0]))
        return a[0]

    def c_path(self, eng, st, a, ins):
        """imported_path: the path of the file, relative to the importing one (C17)"""
        st.log.append(('path', a[1].r, get_sv(eng, st, a[2])))
        return None

    def c_load(self, eng, st, a, ins):
        """source_manager_t::load: true when the file could be read (C17)"""
        st.log.append(('load',))
        b = z3.Bool('load%d' % len(st.log))
        st.log[-1] = ('load', b)
        return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if 0 else b

    def nt(self, eng, st, kind, cls, alts):
        """a nonterminal at the current position: reads at least one token and gives a node, or reports an error"""
        n = st.ghost.get('nnt', 0)
        st.ghost['nnt'] = n + 1
        rid = '%s.%d' % (kind, n)
        p = self.pos(st)
        if self.RANK[kind] >= self.RANK[self.me]: eng.prove(st, z3.UGT(p, u64(P0)), 'recursion only after taking a token', where='calls %s' % kind)
        eng.prove(st, z3.ULT(p, M), 'never past the end of the text', where='calls %s' % kind)

        def good(s):
            q = z3.BitVec(rid + '.to', 32)
            eng.assume(s, z3.And(z3.UGT(u64(q), p), z3.ULT(u64(q), M)))
            self.setpos(s, q)
            self.line(s, rid)
            s.log.append((kind, rid, p, u64(q)))
            return alts(s, rid)

        def bad(s):
            s.log.append((kind + '!', rid, p, None))
            return Throw(ERR_TI, kind)
        return [Alt(z3.Bool(rid + '.ok'), good), Alt(z3.Not(z3.Bool(rid + '.ok')), bad)]

    def line(self, s, rid):
        b = self.off('lexer_t', 'stream_') + self.off(TS, 'line_')
        for a in (0, 4): s.wr('lexer').cells[b + a] = (4, z3.BitVec('%s.line%d' % (rid, a), 32))

    def c_expr(self, eng, st, a, ins):
        """parse_expr_: reads one expression; the stacks are as before (expr:whole)"""
        return self.nt(eng, st, 'expr', EXPR, lambda s, rid: self.new(eng, s, rid, EXPR))

    def c_stmt(self, eng, st, a, ins):
        """parse_stmt_: reads one statement and its line end (stmt:*)"""
        return self.nt(eng, st, 'stmt', STMT, lambda s, rid: self.new(eng, s, rid, STMT))

    def c_func(self, eng, st, a, ins):
        """parse_function_: reads one function after its keyword (decl:function)"""
        return self.nt(eng, st, 'func', FUN, lambda s, rid: self.new(eng, s, rid, FUN))

    def c_operand(self, eng, st, a, ins):
        """parse_operand_: reads one operand and pushes it (operand:*)"""
        def push(s, rid):
            p = self.new(eng, s, rid, EXPR)
            r = s.wr('exps')
            r.f[0, 8] = r.f[0, 8].write(bv(r.n, 64), self.unwrap(eng, s, p))
            r.n = simp(bv(r.n, 64) + 1)
            return None
        return self.nt(eng, st, 'operand', EXPR, push)

    def c_ex(self, eng, st, a, ins): raise Undecided('parse_expr_ex_ called here')
    def c_op_push(self, eng, st, a, ins): raise Undecided('op_push_ called here')

    # ------------------------------------------------------------- loops
    def trim(self, log): return [x for x in log if not (x[0] == 'loop' and self.loops[x[1]].silent)]

    def progress(self, eng, s, loop): eng.prove(s, z3.UGT(self.pos(s), self.pos(loop.sh)), 'every turn of a loop takes a token')

    def pushed(self, eng, s, loop, vs):
        """terms appended to the one list this turn writes, earlier entries kept; None when the turn does anything else"""
        if not vs: return []
        if len(vs) != 1: return None
        v = vs[0]
        a, b = loop.sh.regs[v], s.regs[v]
        d = simp(bv(b.n, 64) - bv(a.n, 64))
        if not is_c(d): return None
        fa, fb = eng.seq_field(s, a, 0, 8, PTR) if (0, 8) not in a.f else a.f[0, 8], b.f[0, 8]
        if not must(eng, z3.Implies(z3.ULT(J, bv(a.n, 64)), fa.read(J) == fb.read(J))): return None
        return [fb.read(simp(bv(a.n, 64) + i)) for i in range(d if isinstance(d, int) else d.as_long())]

    def turns(self, eng, s, loop, ev, vs):
        """the list grammars (name, state) this turn is one round of"""
        ok = set()
        add = self.pushed(eng, s, loop, vs)
        if add is None: return ok
        p, q = self.pos(loop.sh), self.pos(s)
        if len(ev) == 1 and ev[0][0] in ('stmt', 'expr'):
            rid, a, b = ev[0][1:]
            x = self.terms.get(z3.simplify(add[0]).sexpr()) if len(add) == 1 else None
            if isinstance(x, RP) and x.r == rid:
                if ev[0][0] == 'stmt' and must(eng, z3.And(a == p, b == q)):
                    for stop in (('END',), ('ELSE', 'END')):
                        if must(eng, z3.Not(self.is_(p, *stop))): ok.add(('stmts', stop))
                if ev[0][0] == 'expr':
                    if must(eng, z3.And(a == p, self.is_(b, 'COMMA'), q == b + 1)): ok.add(('exprs', 0))
                    if must(eng, z3.And(a == p + 1, self.is_(p, 'COMMA'), q == b)): ok.add(('exprs', 1))
        if not ev and len(add) == 1:
            x = self.terms.get(z3.simplify(add[0]).sexpr())
            for st_, at, c in ((0, p, p + 1), (1, p + 1, p)):
                if must(eng, z3.And(self.is_(at, 'IDENT'), self.is_(c, 'COMMA'), q == p + 2)) and self.same(eng, s, x, self.arg(at), quiet=True): ok.add(('args', st_))
        return ok | self.more_turns(eng, s, loop, ev, add, vs)

    def more_turns(self, eng, s, loop, ev, add, vs): return set()

    def arg(self, at): return Node(VAR, name=('tok', at), scope=self.E['e_arg'], expr=None, is_const=0)

    # ------------------------------------------------------------- results
    def same(self, eng, s, v, want, nm='', quiet=False):
        """the value is what the grammar says"""
        def need(c, what):
            if quiet: return must(eng, c) if not isinstance(c, bool) else c
            return eng.prove(s, c, '%s: %s' % (nm, what))
        if isinstance(v, MaybeP) and must(eng, v.c): v = v.p
        if want is None: return need(isinstance(v, Null), 'is absent')
        if isinstance(want, tuple) and want[0] == 'tok': return need(isinstance(v, RP) and v.r == 'toks' and is_c(v.off) and v.off == 0 and bv(v.idx, 64) == want[1], 'is the token written there')
        if isinstance(want, tuple) and want[0] == 'rid': return need(isinstance(v, RP) and v.r == want[1] and is_c(v.off) and v.off == 0, 'is the part written there')
        if isinstance(want, tuple) and want[0] == 'term':
            t = s.regs[v.r].meta.get('term') if isinstance(v, RP) and v.r in s.regs and s.regs[v.r].meta else None
            if t is None and isinstance(v, RP): t = z3.BitVec('&' + v.r, 64)
            return need(t is not None and t == want[1], 'is the part written there')
        if isinstance(want, tuple) and want[0] == 'text':
            sv = want[1]
            return need(v.sid is not None and sv.sid is not None and v.sid == sv.sid, 'has the text written there')
        if isinstance(want, ListOf): return self.same_list(eng, s, v, want, nm, quiet)
        if isinstance(want, Node):
            if not (isinstance(v, RP) and v.r in s.regs and (s.regs[v.r].meta or {}).get('new')): return need(False, 'is a new node')
            r = s.regs[v.r]
            if not need(bv(self.cell(eng, s, v.r, 'ast_node_t', 'type', 32), 32) == self.E[TYPE_OF[want.cls]], 'is a ' + want.cls): return False
            ok = need(is_c(r.meta['size']) and r.meta['size'] >= self.t.sizes[want.cls], 'is a ' + want.cls)
            for f, x in want.f.items():
                o = self.off(want.cls, f)
                n2 = '%s %s.%s' % (nm, re.sub('^ast_(exp_|stmt_)?|_t$', '', want.cls), f) if nm else f
                if isinstance(x, ListOf): y = r.objs.get(o)
                elif isinstance(x, tuple) and x[0] == 'text': y = r.objs.get(o)
                elif isinstance(x, int) or z3.is_expr(x):
                    sz, y = r.cells.get(o, (0, None))
                    if y is None: ok = need(False, f + ' is set') and ok
                    elif z3.is_fp(y) or z3.is_expr(x) and z3.is_fp(x): ok = need(y == x, f + ' is as written') and ok
                    else: ok = need(bv(y, 8 * sz) == bv(x, 8 * sz), f + ' is as written') and ok
                    continue
                else: y = r.cells.get(o, (0, None))[1]
                if y is None: ok = need(False, f + ' is set') and ok
                else: ok = self.same(eng, s, y, x, n2, quiet) and ok
            return ok
        raise Undecided('specification of %r' % (want,))

    def cell(self, eng, s, rid, cls, f, w):
        c = s.regs[rid].cells.get(self.off(cls, f))
        return c[1] if c else z3.BitVec('unset!' + rid, w)

    def elem_same(self, eng, s, t, want, nm, quiet):
        x = self.terms.get(z3.simplify(t).sexpr())
        if x is None: return eng.prove(s, False, nm + ': holds the parts written there') if not quiet else False
        return self.same(eng, s, x, want, nm, quiet)

    def same_list(self, eng, s, vec, want, nm, quiet):
        def need(c, what): return must(eng, c) if quiet else eng.prove(s, c, '%s: %s' % (nm, what))
        if not hasattr(vec, 'seq'): return need(False, 'is a list')
        v = vec.seq
        r = s.regs[v]
        lp = [i for i, x in enumerate(want.items) if isinstance(x, Loop)]
        if not lp:
            ok = need(bv(r.n, 64) == len(want.items), 'has as many entries as written')
            for i, x in enumerate(want.items): ok = ok and self.elem_same(eng, s, r.f[0, 8].read(z3.BitVecVal(i, 64)), x, nm, quiet)
            return ok
        if len(lp) > 1:
            eng.gave_up = True
            return need(False, 'list read by one loop')
        L = want.items[lp[0]]
        ok = need(L.vecs <= {v}, 'every part goes into this list')
        e, h = L.entry.regs[v], L.sh.regs[v]
        ok = need(bv(e.n, 64) == lp[0], 'nothing but what is written') and ok
        for i in range(lp[0]): ok = ok and self.elem_same(eng, s, e.f[0, 8].read(z3.BitVecVal(i, 64)), want.items[i], nm, quiet)
        if lp[0] and not same_f(e, h):
            # entries made before the loop are kept by it
            for i in range(lp[0]): ok = need(z3.Implies(z3.BoolVal(True), h.f[0, 8].read(z3.BitVecVal(i, 64)) == e.f[0, 8].read(z3.BitVecVal(i, 64))), 'earlier parts are kept') and ok if not L.vecs else ok
        post = want.items[lp[0] + 1:]
        ok = need(bv(r.n, 64) == bv(h.n, 64) + len(post), 'has as many entries as written') and ok
        ok = need(z3.Implies(z3.ULT(J, bv(h.n, 64)), r.f[0, 8].read(J) == h.f[0, 8].read(J)), 'earlier parts are kept') and ok
        for i, x in enumerate(post): ok = ok and self.elem_same(eng, s, r.f[0, 8].read(simp(bv(h.n, 64) + i)), x, nm, quiet)
        return ok


def same_f(a, b): return a.f.get((0, 8)) is b.f.get((0, 8))


class Reader:
    """predictive reader of the grammar over the ghost log: what the parser must have done"""

    def __init__(self, w, eng, s, ch, log, pos): self.w, self.eng, self.s, self.ch, self.log, self.p = w, eng, s, ch, list(log), pos

    steps = 0

    def at(self, *names):
        self.steps += 1
        if self.steps > 60: raise Mismatch('the grammar goes on without the parser')
        return self.ch.b(self.w.is_(self.p, *names))

    def inst(self):
        for q in self.s.quant:
            f = q(self.p)
            if f is not None: self.eng.solver.add(f)

    def tok(self, *names):
        """one token of this kind"""
        self.inst()
        if not self.at(*names): raise SpecErr(self.p)
        self.p = z3.simplify(self.p + 1)
        return ('tok', z3.simplify(self.p - 1))

    def found(self, *names):
        self.inst()
        if self.at(*names):
            self.p = z3.simplify(self.p + 1)
            return ('tok', z3.simplify(self.p - 1))

    def nt(self, kind):
        self.inst()
        if not self.log: raise Mismatch('%s expected' % kind)
        e = self.log.pop(0)
        if e[0] not in (kind, kind + '!'): raise Mismatch('%s expected, not %s' % (kind, e[0]))
        if not must(self.eng, e[2] == self.p): raise Mismatch('%s starts elsewhere' % kind)
        if e[0][-1] == '!': raise Nested()
        self.p = e[3]
        return ('rid', e[1])

    def loop(self, *how):
        """the next entry is a loop that goes round in this list"""
        if self.log and self.log[0][0] == 'loop':
            L = self.w.loops[self.log[0][1]]
            if not must(self.eng, self.w.pos(L.entry) == self.p): return None
            if L.ok is not None and how not in L.ok:
                if any(x[0] == how[0] for x in L.ok): return None
                raise Mismatch('a loop that reads something else')
            self.log.pop(0)
            self.p = L.pos()
            return L

    def stmts(self, *stop):
        out = []
        while True:
            L = self.loop('stmts', tuple(sorted(stop)))
            if L: out.append(L)
            self.inst()
            if self.at(*stop): return ListOf(out)
            out.append(self.nt('stmt'))

    def commas(self, how, item, T=NPV):
        out = []
        while True:
            L = self.loop(how, 0)
            if L: out.append(L)
            out.append(item())
            L = self.loop(how, 1)
            if L: out.append(L)
            if not self.found('COMMA'): return ListOf(out, T)

    def eol(self):
        self.tok('EOL')
        self.p = SKIP(self.p)
        self.inst()

    def skip(self):
        self.p = SKIP(self.p)
        self.inst()

    # ---------------------------------------------------------- grammar
    def stmt(self):
        self.inst()
        self.skip()
        self.start = self.p
        if self.found('VAR'): n = self.decl('e_local')
        elif self.at('IDENT'): n = self.ident()
        elif self.at('IF'): n = self.if_()
        elif self.at('WHILE'): n = self.while_()
        elif self.at('FOR'): n = self.for_()
        elif self.at('RETURN'):
            t = self.tok('RETURN')
            self.inst()
            n = Node('ast_stmt_return_t', token=t, expr=None if self.at('EOL') else self.nt('expr'))
        else: raise SpecErr(self.p)
        self.eol()
        return n

    def decl(self, scope, const=0):
        name = self.tok('IDENT')
        return Node(VAR, name=name, expr=self.nt('expr') if self.found('ASSIGN') else None, scope=self.w.E[scope], is_const=const)

    def ident(self):
        t = self.tok('IDENT')
        self.inst()
        if self.at('ADD', 'SUB', 'MUL', 'DIV'):
            op = self.tok('ADD', 'SUB', 'MUL', 'DIV')
            self.inst()
            if not self.found('ASSIGN'): raise SpecErr(self.p, t[1])
            return Node('ast_stmt_assign_var_t', name=t, expr=Node('ast_exp_bin_op_t', token=op, op=self.w.k(op[1]), left=Node('ast_exp_ident_t', name=t), right=self.nt('expr')))
        if self.found('DOT'):
            m = self.tok('IDENT')
            self.tok('ASSIGN')
            return Node('ast_stmt_assign_member_t', name=t, member=m, expr=self.nt('expr'))
        if self.found('ASSIGN'): return Node('ast_stmt_assign_var_t', name=t, expr=self.nt('expr'))
        if self.at('LPAREN'):
            return Node('ast_stmt_call_t', expr=self.call(Node('ast_exp_ident_t', name=t)))
        if self.found('LBRACKET'):
            i = self.nt('expr')
            self.tok('RBRACKET')
            self.tok('ASSIGN')
            return Node('ast_stmt_assign_array_t', name=t, index=i, expr=self.nt('expr'))
        raise SpecErr(self.p, t[1])

    def call(self, callee):
        t = self.tok('LPAREN')
        args = ListOf([])
        if not self.found('RPAREN'):
            args = self.commas('exprs', lambda: self.nt('expr'))
            self.tok('RPAREN')
        return Node('ast_exp_call_t', token=t, callee=callee, args=args)

    def block(self, *stop): return Node(BLK, nodes=self.stmts(*stop))

    def if_(self):
        t = self.tok('IF')
        self.tok('LPAREN')
        c = self.nt('expr')
        self.tok('RPAREN')
        self.eol()
        b = self.block('END', 'ELSE')
        e = None
        if self.found('ELSE'):
            self.eol()
            e = self.block('END')
        self.tok('END')
        return Node('ast_stmt_if_t', token=t, expr=c, then_block=b, else_block=e)

    def while_(self):
        t = self.tok('WHILE')
        self.tok('LPAREN')
        c = self.nt('expr')
        self.tok('RPAREN')
        self.eol()
        b = self.block('END')
        self.tok('END')
        return Node('ast_stmt_while_t', token=t, expr=c, body=b)

    def for_(self):
        t = self.tok('FOR')
        self.tok('LPAREN')
        n = self.tok('IDENT')
        self.tok('ASSIGN')
        a = self.nt('expr')
        self.tok('TO')
        b = self.nt('expr')
        self.tok('RPAREN')
        self.eol()
        c = self.block('END')
        self.tok('END')
        return Node('ast_stmt_for_t', token=t, name=n, start=a, end=b, body=c)

    def function(self):
        n = self.tok('IDENT')
        self.tok('LPAREN')
        args = ListOf([], VPV)
        if not self.found('RPAREN'):
            args = self.commas('args', lambda: self.w.arg(self.tok('IDENT')[1]), VPV)
            self.tok('RPAREN')
        self.eol()
        b = self.block('END')
        e = self.tok('END')
        return Node(FUN, token=n, name=('text', self.text(n[1])), args=args, body=b, end=e, is_syscall=0, is_varargs=0)

    def same_text(self, a, i):
        b = self.text(i)
        if a.sid is not None and must(self.eng, a.sid == b.sid): return True
        return must(self.eng, bv(a.n, 64) == bv(b.n, 64)) and must(self.eng, z3.Implies(z3.ULT(J, bv(b.n, 64)), a.fun.read(J) == b.fun.read(J)))

    def text(self, i): return sv_of_sid(z3.Function('toks.text.sid', B64, B64)(bv(i, 64)))


def settle(w, eng, s, k, v, nm, rule, result=None):
    """the path ends as the grammar says"""
    log = w.trim(s.log)

    def go(ch):
        r = Reader(w, eng, s, ch, [x for x in log if x[0] != 'error'], u64(P0))
        err = [x for x in s.log if x[0] == 'error']
        if nm_seen(eng): eng.canary = True
        try:
            want = rule(r)
        except Nested:
            eng.prove(s, k == 'throw' and not err and not r.log, nm + ': an error inside is passed on')
            return
        except SpecErr as e:
            if k != 'throw' or len(err) != 1 or r.log: return eng.prove(s, False, nm + ': what is not in the grammar is refused')
            p = err[0][2]
            if not (isinstance(p, RP) and p.r == 'toks'): return eng.prove(s, False, nm + ': the error names a token')
            eng.prove(s, z3.Or([bv(p.idx, 64) == x for x in (e.pos,) + e.also]), nm + ': the error is where the text goes wrong')
            return
        except Mismatch as e:
            if any(x[0] == 'loop' and w.loops[x[1]].ok is not None and not w.loops[x[1]].ok for x in log): eng.gave_up = True
            eng.prove(s, False, nm + ': reads what the grammar says', info={'why': str(e), 'log': [str(x) for x in log]})
            return
        if k != 'ret': return eng.prove(s, False, nm + ': what is in the grammar is accepted')
        eng.prove(s, not r.log, nm + ': reads nothing else')
        eng.prove(s, w.pos(s) == r.p, nm + ': ends where the grammar says')
        eng.prove(s, z3.And(z3.UGT(w.pos(s), u64(P0)), z3.ULT(w.pos(s), M if w.me != 'top' else M + 1)), nm + ': takes a token and stays in the text')
        if result: result(r, want)
        else: w.same(eng, s, v, want, nm)
    eng.spec_paths = getattr(eng, 'spec_paths', 0) + spec_paths(eng, s, go)


def nm_seen(eng): return True


def start(T, setup, w, fn, args, post, pre=None):
    eng = setup(w.engine())
    st = w.make(eng)
    a = args(w, eng, st)
    if pre: pre(w, eng, st)
    eng.inst(st, u64(P0))
    w.st0 = st.fork()
    eng.canary = False

    def end(s, k, v):
        if k not in ('ret', 'throw'): return
        post(w, eng, s, k, v)
    eng.on_end = end
    eng.start(st, find1(T, fn), a)
    eng.explore(st)
    return eng


FIRST = {'var': ('VAR',), 'if': ('IF',), 'while': ('WHILE',), 'for': ('FOR',), 'return': ('RETURN',)}
SECOND = {'compound': ('ADD', 'SUB', 'MUL', 'DIV'), 'member': ('DOT',), 'assign': ('ASSIGN',), 'call': ('LPAREN',), 'index': ('LBRACKET',)}


def t_stmt(nm):
    def pre(w, eng, st):
        eng.inst(st, SKIP(u64(P0)))
        at = SKIP(u64(P0))
        allf = [x for y in FIRST.values() for x in y]
        alls = [x for y in SECOND.values() for x in y]
        if nm in FIRST: eng.assume(st, w.is_(at, *FIRST[nm]))
        elif nm in SECOND: eng.assume(st, z3.And(w.is_(at, 'IDENT'), w.is_(at + 1, *SECOND[nm])))
        elif nm == 'lone name': eng.assume(st, z3.And(w.is_(at, 'IDENT'), z3.Not(w.is_(at + 1, *alls))))
        else: eng.assume(st, z3.Not(w.is_(at, 'IDENT', *allf)))

    def body(T, setup):
        w = ParseWorld(T, 'stmt')
        return start(T, setup, w, r'^nano::parser_t::parse_stmt_\(\)', lambda w, eng, st: [w.V], lambda w, eng, s, k, v: settle(w, eng, s, k, v, nm, lambda r: r.stmt()), pre)
    return Task('stmt:' + nm, body, info={'native': ('grammar',)})


def t_function():
    def body(T, setup):
        w = ParseWorld(T, 'func')
        return start(T, setup, w, r'^nano::parser_t::parse_function_\(', lambda w, eng, st: [w.V, RP('toks', z3.BitVec('kw', 64))],
                     lambda w, eng, s, k, v: settle(w, eng, s, k, v, 'function', lambda r: r.function()), lambda w, eng, st: eng.assume(st, z3.ULT(z3.BitVec('kw', 64), M)))
    return Task('decl:function', body, info={'native': ('grammar',)})



# ------------------------------------------------------------ operands
class OperandWorld(ParseWorld):
    def __init__(self, T): ParseWorld.__init__(self, T, 'operand')

    def loop_havoc(self, eng, st, sh, loop):
        """operators after an operand: the top of the operand stack is what was read so far"""
        if not any(len(x) > 1 and x[1] == 'exps' for x in loop.M): return ()
        rid = 'sofar.' + loop.k
        p = self.new(eng, sh, rid, EXPR)
        r = sh.wr('exps')
        r.f[0, 8] = r.f[0, 8].write(simp(bv(r.n, 64) - 1), self.unwrap(eng, sh, p))
        loop.sofar = rid
        return ('exps',)

    def kept(self, eng, s, a, b, n):
        return must(eng, z3.And(bv(b.n, 64) == bv(a.n, 64), z3.Implies(z3.ULT(J, n), a.f[0, 8].read(J) == b.f[0, 8].read(J))))

    def more_turns(self, eng, s, loop, ev, add, vs):
        cur = getattr(loop, 'sofar', None)
        if cur is None or add: return set()
        a, b = loop.sh.regs['exps'], s.regs['exps']
        if not self.kept(eng, s, a, b, bv(a.n, 64) - 1): return set()
        good = []

        def go(ch):
            r = Reader(self, eng, s, ch, ev, self.pos(loop.sh))
            try: want = r.postfix(('rid', cur))
            except (SpecErr, Nested, Mismatch): want = None
            top = b.f[0, 8].read(simp(bv(b.n, 64) - 1))
            good.append(want is not None and not r.log and must(eng, self.pos(s) == r.p) and self.elem_same(eng, s, top, want, '', True))
        spec_paths(eng, s, go)
        return {('postfix',)} if all(good) else set()


def postfix(r, x):
    if r.at('LBRACKET'):
        t = r.tok('LBRACKET')
        i = r.nt('expr')
        r.tok('RBRACKET')
        return Node('ast_exp_deref_t', token=t, lhs=x, index=i)
    if r.at('LPAREN'): return r.call(x)
    return None


def operand(r):
    w, eng = r.w, r.eng
    n = r.found('SUB')
    if n:
        l = r.found('NOT')
        x = r.nt('operand')
        if l: x = Node('ast_exp_unary_op_t', op=l, child=x)
        return Node('ast_exp_unary_op_t', op=n, child=x)
    x = lhs(r)
    while True:
        L = r.loop('postfix')
        if L:
            e = L.entry.regs['exps']
            w.elem_same(eng, L.entry, e.f[0, 8].read(simp(bv(e.n, 64) - 1)), x, 'operand', False)
            eng.prove(L.entry, bv(e.n, 64) == bv(w.st0.regs['exps'].n, 64) + 1, 'operand: one entry on the stack')
            eng.prove(L.entry, z3.Implies(z3.ULT(J, bv(w.st0.regs['exps'].n, 64)), e.f[0, 8].read(J) == w.st0.regs['exps'].f[0, 8].read(J)), 'operand: pending operands are kept')
            x = ('rid', L.sofar) if hasattr(L, 'sofar') else x
        r.inst()
        y = postfix(r, x)
        if y is None: return x
        x = y


def lhs(r):
    w = r.w
    r.inst()
    if r.at('LBRACKET'):
        t = r.tok('LBRACKET')
        l = r.commas('exprs', lambda: r.nt('expr'))
        r.tok('RBRACKET')
        return Node('ast_exp_array_init_t', name=t, expr=l)
    if r.found('LPAREN'):
        x = r.nt('expr')
        r.tok('RPAREN')
        return x
    if r.at('IDENT'):
        t = r.tok('IDENT')
        if r.found('DOT'): return Node('ast_exp_member_t', name=t, member=r.tok('IDENT'))
        return Node('ast_exp_ident_t', name=t)
    val = lambda t: z3.Function('toks.f%d_4' % w.off(TK, 'val_'), B64, B32)(bv(t[1], 64))
    if r.at('INT'):
        t = r.tok('INT')
        return Node('ast_exp_lit_var_t', token=t, val=val(t))
    if r.at('FLOAT'):
        t = r.tok('FLOAT')
        return Node('ast_exp_lit_float_t', token=t, val=z3.fpBVToFP(val(t), z3.Float32()))
    if r.at('STRING'):
        t = r.tok('STRING')
        return Node('ast_exp_lit_str_t', token=t, value=('text', r.text(t[1])))
    if r.at('NONE'): return Node('ast_exp_none_t', token=r.tok('NONE'))
    raise SpecErr(r.p)


Reader.postfix = postfix
Reader.operand = operand
LHS = {'minus': ('SUB',), 'array': ('LBRACKET',), 'parentheses': ('LPAREN',), 'name': ('IDENT',), 'literal': ('INT', 'FLOAT', 'STRING', 'NONE')}


def t_operand(nm):
    def pre(w, eng, st):
        every = [x for y in LHS.values() for x in y]
        eng.assume(st, w.is_(u64(P0), *LHS[nm]) if nm in LHS else z3.Not(w.is_(u64(P0), *every)))

    def post(w, eng, s, k, v):
        def result(r, want):
            a, b = w.st0.regs['exps'], s.regs['exps']
            n = bv(a.n, 64)
            eng.prove(s, bv(b.n, 64) == n + 1, nm + ': one operand is pushed')
            eng.prove(s, z3.Implies(z3.ULT(J, n), a.f[0, 8].read(J) == b.f[0, 8].read(J)), nm + ': pending operands are kept')
            w.elem_same(eng, s, b.f[0, 8].read(n), want, nm, False)
            a, b = w.st0.regs['ops'], s.regs['ops']
            eng.prove(s, z3.And(bv(b.n, 64) == bv(a.n, 64), z3.Implies(z3.ULT(J, bv(a.n, 64)), a.f[0, 8].read(J) == b.f[0, 8].read(J))), nm + ': pending operators are kept')
        settle(w, eng, s, k, v, nm, lambda r: r.operand(), result)
    return Task('operand:' + nm, lambda T, setup: start(T, setup, OperandWorld(T), r'^nano::parser_t::parse_operand_\(\)', lambda w, eng, st: [w.V], post, pre), info={'native': ('grammar',)})


# ---------------------------------------------------------- expressions
TIDE, BN0 = z3.BitVec('tide', 32), z3.BitVec('pending', 64)
BIN = z3.Function('binary.before', B64, B64)
OP = z3.BitVec('op', 64)


class ExWorld(ParseWorld):
    """parse_expr_ex_: pending binary operators above the tide each have their left operand on the operand stack"""

    def __init__(self, T, me='ex'):
        ParseWorld.__init__(self, T, me)
        self.contracts.insert(0, (re.compile(r'^(?:[\w:<>*&,() ]+ )?std::vector<nano::(token_t const|ast_node_t)\*'), self.c_stack))

    def make(self, eng):
        st = ParseWorld.make(self, eng)
        self.ghost(eng, st)
        return st

    def ghost(self, eng, st):
        r = Reg('ghost.pending', 'ghost.pending', 'cells')
        r.cells[0] = (8, BN0)
        r.meta = {}
        st.regs[r.id] = r
        n, m = bv(st.regs['ops'].n, 64), bv(st.regs['exps'].n, 64)
        eng.assume(st, z3.And(z3.ULE(u64(TIDE), n), z3.ULE(BN0, n - u64(TIDE)), z3.ULE(BN0, m)))

    def bn(self, s): return bv(s.regs['ghost.pending'].cells[0][1], 64)
    def setbn(self, s, v): s.wr('ghost.pending').cells[0] = (8, simp(v))

    def loop_cands(self, eng, st, sh, loop):
        m = lambda s: bv(s.regs['exps'].n, 64) - self.bn(s)
        fs = [lambda s: m(s) == m(self.st0), lambda s: m(s) == m(self.st0) + 1, lambda s: z3.UGE(bv(s.regs['ops'].n, 64), u64(TIDE)), lambda s: z3.ULE(self.bn(s), bv(s.regs['exps'].n, 64)),
              lambda s: z3.ULT(bv(s.regs['exps'].n, 64), 1 << 21), lambda s: z3.ULT(bv(s.regs['ops'].n, 64), 1 << 21), lambda s: self.frame(s)]
        return [('ex', f(st), f(sh), lambda s, pv, f=f: f(s)) for f in fs]

    def frame(self, s):
        a, b = self.st0.regs['ops'], s.regs['ops']
        c, d = self.st0.regs['exps'], s.regs['exps']
        return z3.And(z3.Implies(z3.ULT(J, u64(TIDE)), a.f[0, 8].read(J) == b.f[0, 8].read(J)), z3.Implies(z3.ULT(J, bv(c.n, 64) - BN0), c.f[0, 8].read(J) == d.f[0, 8].read(J)))

    def c_stack(self, eng, st, a, ins):
        """std::vector of pending operators and operands; pushing an operator is recorded"""
        ours = isinstance(a[0], RP) and a[0].r == 'this'
        nm = eng.m.dem(self.callee(eng, st, ins))
        if not ours: return m_vector(eng, st, a, ins)
        if re.search(r'::(size|empty)\(\)', nm): return m_vector(eng, st, a, ins)
        if re.search(r'::(push_back|emplace_back)', nm) and a[0].off == self.off('parser_t', 'op_stack_'):
            t = eng.load(st, a[1], PTR)
            eng.prove(st, isinstance(t, RP) and t.r == 'toks' and z3.And(z3.ULT(bv(t.idx, 64), M), self.is_(t.idx, 'NOT', *BINARY)), 'only operators are pending')
            m_vector(eng, st, a, ins)
            eng.assume(st, z3.ULT(bv(st.regs['ops'].n, 64), 1 << 20))
            self.setbn(st, self.bn(st) + z3.If(self.isbin(t.idx), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
            st.log.append(('push', '', bv(t.idx, 64), bv(t.idx, 64)))
            return None
        raise Undecided('operator stack: ' + nm)

    def part(self, old, n, nm):
        g = z3.Function(nm, B64, B64)
        return Fun(lambda i: z3.If(z3.ULT(bv(i, 64), n), old.read(bv(i, 64)), g(bv(i, 64))))

    def c_ex(self, eng, st, a, ins):
        """parse_expr_ex_: reads operands and operators; what was pending below is kept and one operand is left over (expr:operators)"""
        eng.prove(st, bv(a[1], 32) == TIDE, 'the expression keeps its tide')
        eng.prove(st, z3.And(z3.ULE(self.bn(st), bv(st.regs['exps'].n, 64)), z3.UGE(bv(st.regs['ops'].n, 64), u64(TIDE))), 'every pending operator has its left operand')

        def eff(s, rid):
            o, e = s.wr('ops'), s.wr('exps')
            E, n, m, b = bv(e.n, 64) - self.bn(s), z3.BitVec(rid + '.ops', 64), z3.BitVec(rid + '.exps', 64), z3.BitVec(rid + '.bn', 64)
            eng.assume(s, z3.And(z3.UGE(n, u64(TIDE)), z3.ULT(n, 1 << 20), z3.ULT(m, 1 << 20), z3.ULE(b, n - u64(TIDE)), m - b == E + 1, z3.ULE(b, m)))
            o.f[0, 8], o.n = self.part(o.f[0, 8], u64(TIDE), rid + '.op'), n
            e.f[0, 8], e.n = self.part(e.f[0, 8], E, rid + '.exp'), m
            self.setbn(s, b)
            self.after_ex(eng, s, n, m, b)
            return None
        return self.nt(eng, st, 'ex', EXPR, eff)

    def after_ex(self, eng, s, n, m, b): pass

    def c_op_push(self, eng, st, a, ins):
        """op_push_: applies pending operators of at least that level, then the operator is pending (expr:push)"""
        t = a[1]
        o, e, b = st.wr('ops'), st.wr('exps'), self.bn(st)
        n, m = bv(o.n, 64), bv(e.n, 64)
        eng.prove(st, isinstance(t, RP) and t.r == 'toks' and z3.And(z3.ULT(bv(t.idx, 64), M), self.isbin(t.idx)), 'only operators are pending')
        eng.prove(st, bv(a[2], 32) == TIDE, 'the expression keeps its tide')
        eng.prove(st, z3.And(z3.UGT(m, b), z3.UGE(n, u64(TIDE))), 'every pending operator has its operands')
        k = st.ghost.get('npush', 0)
        st.ghost['npush'] = k + 1
        c, x = z3.BitVec('push%d.applied' % k, 64), z3.BitVec('push%d.left' % k, 64)
        eng.assume(st, z3.And(z3.ULE(c, b), z3.ULE(u64(TIDE), x), z3.ULE(x, n), z3.ULT(x, (1 << 20) - 1)))
        o.f[0, 8], o.n = o.f[0, 8].write(x, simp(bv(t.idx, 64) + BASE)), simp(x + 1)
        e.f[0, 8], e.n = self.part(e.f[0, 8], m - 1 - b, 'push%d.exp' % k), simp(m - c)
        self.setbn(st, b - c + 1)
        st.log.append(('op_push', '', bv(t.idx, 64), bv(t.idx, 64)))
        return None

    def more_turns(self, eng, s, loop, ev, add, vs): return set()

    def turns(self, eng, s, loop, ev, vs):
        ok = set()
        for z in (0, 1):
            good = []

            def go(ch):
                r = Reader(self, eng, s, ch, ev, self.pos(loop.sh))
                try: good.append(operators(r, z, self.pos(s)) == z and not r.log)
                except (SpecErr, Nested, Mismatch): good.append(False)
            spec_paths(eng, s, go)
            if all(good): ok.add(('operators', z))
        return ok
    QUIET = ParseWorld.QUIET + ('ops', 'exps')


def operators(r, z=0, until=None):
    """operands with operators between them; not may precede any operand"""
    z0, first = z, True
    while True:
        if until is not None and not first and z == z0 and not r.log and must(r.eng, r.p == until): return z
        first = False
        L = r.loop('operators', z)
        if L: continue
        r.inst()
        if z == 0:
            if r.log and r.log[0][0] in ('ex', 'ex!') and must(r.eng, r.log[0][2] == r.p):
                r.nt('ex')
                return 'end'
            if r.at('NOT'):
                r.nt('push')
                r.p = z3.simplify(r.p + 1)
                continue
            r.nt('operand')
            z = 1
        else:
            if not r.at(*BINARY): return 'end'
            r.nt('op_push')
            r.p = z3.simplify(r.p + 1)
            z = 0


def t_operators():
    nm = 'operators'

    def post(w, eng, s, k, v):
        def result(r, want):
            m0, n0 = bv(w.st0.regs['exps'].n, 64), bv(w.st0.regs['ops'].n, 64)
            eng.prove(s, want == 'end', nm + ': reads to the end')
            eng.prove(s, z3.UGE(bv(s.regs['ops'].n, 64), u64(TIDE)), nm + ': operators below are kept')
            eng.prove(s, bv(s.regs['exps'].n, 64) - w.bn(s) == m0 - BN0 + 1, nm + ': one operand more than operators')
            eng.prove(s, w.frame(s), nm + ': what is pending below is kept')
        settle(w, eng, s, k, v, nm, operators, result)
    return Task('expr:operators', lambda T, setup: start(T, setup, ExWorld(T), r'^nano::parser_t::parse_expr_ex_\(', lambda w, eng, st: [w.V, TIDE], post), info={'native': ('grammar',)})


class ReduceWorld(ExWorld):
    """operators are applied to their operands, the last one first"""
    OPTOK = None

    def __init__(self, T, me):
        ExWorld.__init__(self, T, me)
        self.contracts = [c for c in self.contracts if getattr(c[1], '__name__', '') != 'c_stack' and not (me == 'op_push' and getattr(c[1], '__name__', '') == 'c_op_push')]
        self.RANK = dict(self.RANK, op_push=0)

    def count(self, eng, st, f):
        st.quant.append(lambda i: z3.And(BIN(bv(i, 64) + 1) == BIN(bv(i, 64)) + z3.If(self.isbin(f.read(bv(i, 64)) - BASE), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)),
                                         z3.Implies(z3.UGE(bv(i, 64), u64(TIDE)), z3.UGE(BIN(bv(i, 64)), BIN(u64(TIDE)))), z3.ULE(BIN(bv(i, 64)), bv(i, 64))))

    def ops(self, s): return bv(s.regs['ops'].n, 64)
    def exps(self, s): return bv(s.regs['exps'].n, 64)

    def loop_havoc(self, eng, st, sh, loop):
        loop.st1 = st
        return ()

    def loop_cands(self, eng, st, sh, loop):
        for s in (sh,):
            for x in (self.ops(s), self.ops(s) - 1, self.ops(st), u64(TIDE)): s.pc.append(z3.And([f for f in (q(x) for q in st.quant) if f is not None]))
        E = self.exps(st) - (BIN(self.ops(st)) - BIN(u64(TIDE)))
        fs = [lambda s: self.exps(s) - BIN(self.ops(s)) == self.exps(st) - BIN(self.ops(st)), lambda s: z3.UGE(self.ops(s), u64(TIDE)), lambda s: z3.ULE(self.ops(s), self.ops(st)),
              lambda s: z3.ULE(self.exps(s), self.exps(st)), lambda s: z3.Implies(z3.ULT(J, E - 1), s.regs['exps'].f[0, 8].read(J) == st.regs['exps'].f[0, 8].read(J))]
        return [('reduce', f(st), f(sh), lambda s, pv, f=f: f(s)) for f in fs]

    def progress(self, eng, s, loop): eng.prove(s, z3.Or(z3.ULT(self.ops(s), self.ops(loop.sh)), z3.UGT(self.pos(s), self.pos(loop.sh))), 'every turn of a loop applies an operator')

    def turns(self, eng, s, loop, ev, vs):
        """one operator is applied to its operands"""
        h, nm = loop.sh, 'apply'
        n, m, a, b = self.ops(h), self.exps(h), h.regs['exps'].f[0, 8], s.regs['exps'].f[0, 8]
        o, o2 = h.regs['ops'].f[0, 8], s.regs['ops'].f[0, 8]
        top = simp(o.read(simp(n - 1)) - BASE)
        eng.prove(s, not ev, nm + ': reads nothing')
        eng.prove(s, z3.UGT(n, u64(TIDE)), nm + ': only operators of this expression')
        eng.prove(s, z3.And(self.ops(s) == n - 1, z3.Implies(z3.ULT(J, n - 1), o.read(J) == o2.read(J))), nm + ': the last operator is applied')
        if self.OPTOK is not None: eng.prove(s, z3.UGE(self.level(top), self.level(self.OPTOK)), nm + ': only operators that bind at least as tightly')
        if must(eng, self.isbin(top)):
            eng.prove(s, z3.And(self.exps(s) == m - 1, z3.Implies(z3.ULT(J, m - 2), a.read(J) == b.read(J))), nm + ': takes two operands')
            self.elem_same(eng, s, b.read(simp(m - 2)), Node('ast_exp_bin_op_t', token=('tok', top), op=self.k(top), left=('term', a.read(simp(m - 2))), right=('term', a.read(simp(m - 1)))), nm, False)
        else:
            eng.prove(s, z3.Not(self.isbin(top)), nm + ': not is the only other operator')
            eng.prove(s, z3.And(self.exps(s) == m, z3.Implies(z3.ULT(J, m - 1), a.read(J) == b.read(J))), nm + ': takes one operand')
            self.elem_same(eng, s, b.read(simp(m - 1)), Node('ast_exp_unary_op_t', op=('tok', top), child=('term', a.read(simp(m - 1)))), nm, False)
        return {'reduce'}


def last_loop(w, eng, s):
    l = [x for x in s.log if x[0] == 'loop']
    if not l: eng.gave_up = True
    return w.loops[l[-1][1]] if l else None


def t_push():
    nm = 'push'

    class W(ReduceWorld):
        OPTOK = OP

        def ghost(self, eng, st):
            n, m = self.ops(st), self.exps(st)
            self.count(eng, st, st.regs['ops'].f[0, 8])
            for x in (n, n - 1, u64(TIDE)): eng.inst(st, x)
            eng.assume(st, z3.And(z3.ULE(u64(TIDE), n), z3.UGE(m, 1 + BIN(n) - BIN(u64(TIDE))), z3.ULE(BIN(n), n), z3.UGE(BIN(n), BIN(u64(TIDE))), z3.ULT(OP, M), self.isbin(OP)))

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        eng.canary = True
        L = last_loop(w, eng, s)
        if L is None: return eng.prove(s, False, nm + ': applies pending operators')
        h = L.sh
        x, m, E = w.ops(h), w.exps(h), bv(w.st0.regs['exps'].n, 64) - (BIN(w.ops(w.st0)) - BIN(u64(TIDE)))
        o = w.st0.regs['ops'].f[0, 8]
        eng.prove(s, z3.Or(x == u64(TIDE), z3.ULT(w.level(o.read(x - 1) - BASE), w.level(OP))), nm + ': every operator that binds at least as tightly is applied')
        eng.prove(s, w.ops(s) == x + 1, nm + ': the operator is pending')
        f = s.regs['ops'].f[0, 8]
        eng.prove(s, f.read(simp(x)) == OP + BASE, nm + ': the operator is pending')
        eng.prove(s, z3.Implies(z3.ULT(J, x), f.read(J) == o.read(J)), nm + ': other operators are kept')
        e, e2 = h.regs['exps'], s.regs['exps']
        eng.prove(s, z3.And(w.exps(s) == m, z3.Implies(z3.ULT(J, m), e.f[0, 8].read(J) == e2.f[0, 8].read(J))), nm + ': operands are as the operators left them')
        eng.prove(s, m - BIN(x) == w.exps(w.st0) - BIN(w.ops(w.st0)), nm + ': every pending operator has its operands')
        eng.prove(s, z3.Implies(z3.ULT(J, E - 1), e2.f[0, 8].read(J) == w.st0.regs['exps'].f[0, 8].read(J)), nm + ': operands below are kept')
        eng.prove(s, w.pos(s) == u64(P0), nm + ': takes no token')
    return Task('expr:push', lambda T, setup: start(T, setup, W(T, 'op_push'), r'^nano::parser_t::op_push_\(', lambda w, eng, st: [w.V, RP('toks', OP), TIDE], post), info={'native': ('grammar',)})


def t_expr():
    nm = 'expression'

    class W(ReduceWorld):
        def ghost(self, eng, st):
            ExWorld.ghost(self, eng, st)
            eng.assume(st, z3.And(BN0 == 0, u64(TIDE) == self.ops(st)))

        def after_ex(self, eng, s, n, m, b):
            f = s.regs['ops'].f[0, 8]
            self.count(eng, s, f)
            s.quant.append(lambda i: z3.Implies(z3.And(z3.UGE(bv(i, 64), u64(TIDE)), z3.ULT(bv(i, 64), n)), self.op_inv(f.read(bv(i, 64)))))
            for x in (n, n - 1, u64(TIDE)): eng.inst(s, x)
            eng.assume(s, BIN(n) - BIN(u64(TIDE)) == b)

    def rule(r):
        r.nt('ex')
        L = last_loop(r.w, r.eng, r.s)
        r.log = [x for x in r.log if x[0] != 'loop']
        return L

    def post(w, eng, s, k, v):
        def result(r, L):
            if L is None: return eng.prove(s, False, nm + ': applies pending operators')
            m0, n0 = w.exps(w.st0), w.ops(w.st0)
            e = L.sh.regs['exps']
            eng.prove(s, w.ops(L.sh) == n0, nm + ': every operator is applied')
            eng.prove(s, w.ops(s) == n0, nm + ': operators outside are kept')
            eng.prove(s, z3.Implies(z3.ULT(J, n0), s.regs['ops'].f[0, 8].read(J) == w.st0.regs['ops'].f[0, 8].read(J)), nm + ': operators outside are kept')
            eng.prove(s, w.exps(s) == m0, nm + ': operands outside are kept')
            eng.prove(s, z3.Implies(z3.ULT(J, m0), s.regs['exps'].f[0, 8].read(J) == w.st0.regs['exps'].f[0, 8].read(J)), nm + ': operands outside are kept')
            w.same(eng, s, v, ('term', e.f[0, 8].read(m0)), nm)
        settle(w, eng, s, k, v, nm, rule, result)
    return Task('expr:whole', lambda T, setup: start(T, setup, W(T, 'expr'), r'^nano::parser_t::parse_expr_\(\)', lambda w, eng, st: [w.V], post), info={'native': ('grammar',)})


# ------------------------------------------------------------- programs
class TopWorld(ParseWorld):
    RANK = dict(ParseWorld.RANK, top=10)

    def prog(self, eng, s): return the_obj(eng, s, RP('ast', 0, self.off('ast_t', 'program') + self.off('ast_program_t', 'children')), 'vector', NPV).seq

    def more_turns(self, eng, s, loop, ev, add, vs):
        if vs and vs != [self.prog(eng, s)]: return set()
        good = []

        def go(ch):
            r = Reader(self, eng, s, ch, ev, self.pos(loop.sh))
            try: want = r.item()
            except (SpecErr, Nested, Mismatch): return good.append(False)
            ok = not r.log and must(eng, self.pos(s) == r.p) and len(add) == (want is not None)
            good.append(ok and (want is None or self.elem_same(eng, s, add[0], want, '', True)))
        spec_paths(eng, s, go)
        return {('items',)} if all(good) else set()

    def make(self, eng):
        st = ParseWorld.make(self, eng)
        self.new(eng, st, 'ast', 'ast_t')
        v = self.prog(eng, st)
        r = st.wr(v)
        r.meta = dict(r.meta, **self.nodemeta(v))
        eng.seq_field(st, r, 0, 8, PTR)
        return st


def item(r):
    r.inst()
    if r.found('EOL'): return None
    if r.found('VAR'): return r.decl('e_global')
    if r.found('CONST'): return r.decl('e_global', 1)
    if r.found('FUNC'): return r.nt('func')
    if r.found('IMPORT'):
        t = r.tok('STRING')
        if len(r.log) < 2 or r.log[0][0] != 'path' or r.log[1][0] != 'load': raise Mismatch('import')
        a, b = r.log.pop(0), r.log.pop(0)
        if a[1] != 'source' or not r.same_text(a[2], t[1]): raise Mismatch('path of the import')
        if not r.ch.b(b[1]): raise SpecErr(t[1])
        return None
    raise SpecErr(r.p)


Reader.item = item


def items(r):
    out = []
    while True:
        L = r.loop('items')
        if L: out.append(L)
        r.inst()
        if r.found('EOF'): return out
        x = r.item()
        if x is not None: out.append(x)


def t_top():
    nm = 'program'

    def post(w, eng, s, k, v):
        if k == 'throw': return eng.prove(s, False, nm + ': errors are handed to the caller')
        rep = [x for x in s.log if x[0] == 'report']
        s.log = [x for x in s.log if x[0] != 'report']
        eng.prove(s, (bv(v, 1) if not z3.is_bool(v) else z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))) == (0 if rep else 1), nm + ': says whether it was accepted')
        eng.prove(s, all(isinstance(x[1], RP) and x[1].r == 'err' for x in rep), nm + ': errors are handed to the caller')

        def result(r, want):
            seq = w.prog(eng, s)
            L = [x for x in want if isinstance(x, Loop)]
            if len(L) != 1:
                eng.gave_up = True
                return eng.prove(s, False, nm + ': one loop over the program')
            h, e = L[0].sh.regs[seq], L[0].entry.regs[seq]
            a = w.st0.regs[seq]
            eng.prove(s, want[0] is L[0] and bv(e.n, 64) == bv(a.n, 64), nm + ': nothing is added but what is written')
            post_ = want[1:]
            c = s.regs[seq]
            eng.prove(s, bv(c.n, 64) == bv(h.n, 64) + len(post_), nm + ': every declaration is kept')
            eng.prove(s, z3.Implies(z3.ULT(J, bv(h.n, 64)), c.f[0, 8].read(J) == h.f[0, 8].read(J)), nm + ': every declaration is kept')
        settle(w, eng, s, 'throw' if rep else 'ret', v, nm, items, result)

    def args(w, eng, st):
        r = Reg('err', 'err', 'cells')
        r.meta = {}
        st.regs['err'] = r
        return [w.V, RP('err')]
    return Task('program:items', lambda T, setup: start(T, setup, TopWorld(T, 'top'), r'^nano::parser_t::parse\(', args, post), info={'native': ('grammar',)})


def parse_tasks():
    return [t_stmt(n) for n in list(FIRST) + list(SECOND) + ['lone name', 'other']] + [t_function(), t_top(), t_operators(), t_push(), t_expr()] + [t_operand(n) for n in list(LHS) + ['other']]
