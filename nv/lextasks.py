"""The lexer: one turn of lex against the token grammar, literals, the token list (C13)."""
import re
import z3
from .sx import *
from .sx import Reg
from .ast import AstWorld, must
from .models import Vec, SV, the_obj, get_sv, sv_of_sid, setup_seq
from .ir import Unsupported, PTR, INT
from .task import Task
from .vmtasks import find1
from .hosttasks import run, consts

B8, B32, B64 = z3.BitVecSort(8), z3.BitVecSort(32), z3.BitVecSort(64)
J = z3.BitVec('any.elem', 64)
CH = z3.Function('text.ch', B64, B8)
N = z3.BitVec('text.len', 64)
WORDS = {'and': 'AND', 'const': 'CONST', 'end': 'END', 'else': 'ELSE', 'for': 'FOR', 'function': 'FUNC', 'if': 'IF', 'import': 'IMPORT', 'not': 'NOT', 'none': 'NONE',
         'or': 'OR', 'return': 'RETURN', 'to': 'TO', 'var': 'VAR', 'while': 'WHILE'}
OPS = {'(': 'LPAREN', ')': 'RPAREN', '[': 'LBRACKET', ']': 'RBRACKET', ',': 'COMMA', '+': 'ADD', '-': 'SUB', '*': 'MUL', '/': 'DIV', '%': 'MOD', '=': 'ASSIGN', '==': 'EQ',
       '<': 'LT', '<=': 'LEQ', '>': 'GT', '>=': 'GEQ', '.': 'DOT'}


def eq(c, x): return c == ord(x)
def digit(c): return z3.And(z3.UGE(c, ord('0')), z3.ULE(c, ord('9')))
def alpha(c): return z3.Or(z3.And(z3.UGE(c, ord('a')), z3.ULE(c, ord('z'))), z3.And(z3.UGE(c, ord('A')), z3.ULE(c, ord('Z'))), c == ord('_'))
def alnum(c): return z3.Or(alpha(c), digit(c))
def low8(c): return z3.If(z3.And(z3.UGE(c, ord('A')), z3.ULE(c, ord('Z'))), c + 32, c)
def space(c): return z3.Or(eq(c, ' '), eq(c, '\t'), eq(c, '\r'))


def c_lower(eng, st, a, ins):
    """tolower in the C locale"""
    c = bv(a[0], 32)
    eng.trusted.add('tolower is that of the C locale')
    return simp(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))


def iters(st):
    """the turns the inner loops took"""
    return sorted({t.decl().name(): t for c in st.pc for t in consts(c) if t.decl().name().startswith('iter!') and t.size() == 64}.items())


class Span:
    """end(p): the first place at or after p whose character is in a set that contains the terminator"""

    def __init__(self, nm, stop): self.f, self.stop = z3.Function('end.' + nm, B64, B64), stop

    def __call__(self, p): return self.f(p)

    def facts(self, eng, st, p, also=()):
        """what defines it, and what the loops so far say about that place"""
        e = self.f(p)
        for t in [e, simp(e - p), J, simp(J - p), simp(p + J)] + list(also): eng.inst(st, t)
        eng.assume(st, z3.Implies(z3.ULE(p, N), z3.And(z3.UGE(e, p), z3.ULE(e, N), self.stop(CH(e)))))
        q = lambda i: z3.Implies(z3.And(z3.ULE(p, N), z3.UGE(bv(i, 64), p), z3.ULT(bv(i, 64), e)), z3.Not(self.stop(CH(bv(i, 64)))))
        st.quant.append(q)
        eng.assume(st, q(J))
        for t in [simp(p + J), simp(J - p)] + list(also) + [x for n, x in iters(st)]: eng.assume(st, q(t))
        for n, x in iters(st): eng.assume(st, q(p + x))


WORD = Span('word', lambda c: z3.Not(alnum(c)))
DIG = Span('digits', lambda c: z3.Not(digit(c)))
EOLP = Span('line', lambda c: z3.Or(c == 10, c == 0))
STR = Span('string', lambda c: z3.Or(eq(c, '"'), c == 10, c == 0))


MUNCH = r'^\(anonymous namespace\)::\w+\(char const\*&, char const\*\)$'


class LexLoop:
    """one turn of the main loop.  The position is whichever place in the text the loop carries that moves by whole tokens."""
    events = True
    writes = True

    def __init__(self, w, eng, st):
        self.w, self.votes = w, {}

    def havoc(self, eng, st, sh):
        sh.log.append(('turn',))
        self.st = st
        return ()

    def places(self, s, pv):
        """the places in the text that this state carries: {loc: index}"""
        out = {('phi', n): bv(v.idx, 64) for n, v in pv.items() if isinstance(v, RP) and v.r == 'text'}
        for rid, r in s.regs.items():
            if r.kind != 'cells' or rid.startswith('ghost'): continue
            for o, (sz, v) in r.cells.items():
                if isinstance(v, RP) and v.r == 'text': out['cell', rid, o, sz] = bv(v.idx, 64)
        return out

    def havoc2(self, eng, st, sh, hv):
        self.hv, self.votes = hv, {}
        self.heads = {loc: bv(x.idx, 64) for loc, (x, v, w) in hv.items() if isinstance(x, RP) and x.r == 'text'}
        self.line = [loc for loc, (x, v, w) in hv.items() if w == 32 and not isinstance(x, Ptr)]
        loc = sorted(self.heads, key=str)[0] if self.heads else None
        self.set(sh, loc)

    def set(self, sh, loc):
        g = self.heads.get(loc, z3.BitVecVal(0, 64))
        l = self.w.line(sh)
        r = Reg(self.w.G, self.w.G, 'cells')
        r.cells = {0: (8, g), 8: (4, l)}
        r.meta = {}
        sh.regs[self.w.G] = r
        self.cur_loc = loc
        self.at = len(sh.pc)
        sh.pc.append(z3.ULE(g, N))

    def final(self, eng, sh):
        """the invariant is that of all turns; only the turns of this part are checked here"""
        v = self.hv.get(self.cur_loc)
        eng.prove(self.st, v is not None and bv(v[1].idx, 64) == 0, 'starts with the text')
        eng.prove(self.st, self.w.line(self.st) == 1, 'starts with line 1')
        sh.pc.append(self.w.part(CH(bv(sh.regs[self.w.G].cells[0][1], 64))))

    def cands(self, eng, st, sh, hv, cur):
        out = []
        for loc, (x, v, w) in hv.items():
            if not (isinstance(x, RP) and x.r == 'text'): continue
            for loc2, (x2, v2, w2) in hv.items():
                if loc2 == loc or not (isinstance(x2, RP) and x2.r == 'text'): continue
                out.append(('le', z3.ULE(bv(v.idx, 64), bv(v2.idx, 64)), z3.ULE(bv(x.idx, 64), bv(x2.idx, 64)), lambda s1, pv, loc=loc, loc2=loc2: z3.ULE(cur(loc, s1, pv), cur(loc2, s1, pv))))
        return out

    def settle(self, eng, st, sh, phis, backs, holds):
        """the position moves by one where nothing is read"""
        ok = [l for l in self.heads if self.votes.get(l)]
        if ok and self.cur_loc not in ok:
            sh.pc.pop(self.at)
            self.set(sh, sorted(ok, key=str)[0])

    def back(self, eng, s, collect):
        if collect and not self.w.events(s):
            pl = self.places(s, self.pv)
            for l, h in self.heads.items():
                if l in pl: self.votes[l] = self.votes.get(l, True) and z3.is_true(z3.simplify(pl[l] == h + 1))
        r = s.regs[self.w.G]
        g, l = bv(r.cells[0][1], 64), bv(r.cells[8][1], 32)
        if collect: return
        if not eng.canary and eng.check() == z3.sat: eng.canary = True
        nx, nl = self.w.turn(eng, s, g, l, self.w.events(s))
        pl = self.places(s, self.pv)
        eng.prove(s, pl[self.cur_loc] == nx if self.cur_loc in pl else False, 'goes on right behind it')
        eng.prove(s, z3.ULE(nx, N), 'stays in the text')
        eng.prove(s, self.w.line(s) == nl, 'counts the lines')


def matches(k, g): return z3.And(*[low8(CH(g + i)) == ord(x) for i, x in enumerate(k)], z3.Not(alnum(CH(g + len(k)))))


def low_in(c, a, b): return z3.And(z3.UGE(low8(c), ord(a)), z3.ULE(low8(c), ord(b)))


# the turns are verified by the character they start with; together these are all
PARTS = {'digit': digit, 'string': lambda c: eq(c, '"'), 'a-d': lambda c: low_in(c, 'a', 'd'), 'e': lambda c: low_in(c, 'e', 'e'), 'f': lambda c: low_in(c, 'f', 'f'), 'g-m': lambda c: low_in(c, 'g', 'm'), 'n': lambda c: low_in(c, 'n', 'n'),
         'o-z': lambda c: low_in(c, 'o', 'z'), 'line': lambda c: z3.Or(eq(c, '#'), c == 10)}
PARTS['other'] = lambda c, p=dict(PARTS): z3.Not(z3.Or([f(c) for f in p.values()]))


class LexWorld(AstWorld):
    part = staticmethod(lambda c: z3.BoolVal(True))
    G = 'ghost.lex'

    def __init__(self, T):
        AstWorld.__init__(self, T)
        self.contracts = [(re.compile(r'^tolower$'), c_lower), (re.compile(r'^nano::token_stream_t::push\('), self.c_push), (re.compile(r'^nano::lexer_t::push_val_\('), self.c_val), (re.compile(MUNCH), self.c_munch)]
        self.tok = {self.E['TOK_' + t]: t for t in list(WORDS.values()) + list(OPS.values()) + ['STRING', 'IDENT', 'EOL', 'EOF', 'INT', 'FLOAT']}
        self.spell = {v: k for k, v in list(WORDS.items()) + list(OPS.items())}

    def cut_hook(self, eng, st, key, phis): return LexLoop(self, eng, st) if key in eng.event_loops else None

    def make(self, eng):
        st = State()
        eng.sum_all = True
        eng.pure = re.compile(r'^\(anonymous namespace\)::\w+\(char\)$')
        f = self.t.mod.fn(find1(self.t, r'^nano::lexer_t::lex\('))
        lp = f.loops()
        for h in lp:
            # loops that are not inside another one carry the tokens
            if not any(h in b for k, b in lp.items() if k != h): eng.event_loops.add((f.name, h))
        self.L = self.new(eng, st, 'lexer', 'lexer_t')
        self.links['lexer_t', 'nano_'] = lambda e, s, r: self.new(e, s, 'nano', 'nano_t')
        self.links['nano_t', 'errors_'] = lambda e, s, r: self.new(e, s, 'errors', 'error_manager_t')
        r = Reg('text', 'text', 'seq')
        r.es, r.n, r.meta = 1, simp(N + 1), {}
        r.f[0, 1] = Fun(lambda i: CH(bv(i, 64)))
        st.regs['text'] = r
        st.quant.append(lambda i: z3.Implies(z3.ULT(bv(i, 64), N), CH(bv(i, 64)) != 0))
        eng.assume(st, CH(N) == 0)
        eng.trusted.add('a source text is shorter than 2^30 characters and has fewer than 2^31 lines')
        eng.bound(st, N, 1 << 30)
        return st

    def c_push(self, eng, st, a, ins):
        """token_stream_t::push: appends that token (proved by tokens:push)"""
        p, q = a
        eng.prove(st, isinstance(p, RP) and p.r == 'lexer' and p.off == self.off('lexer_t', 'stream_'), 'tokens go to its own stream')
        o = q.off if not z3.is_expr(q.off) else None
        if not isinstance(q, RP) or st.regs[q.r].kind != 'cells' or o is None: raise Undecided('token at %r' % q)
        at = lambda f: RP(q.r, 0, o + self.off('token_t', f))
        ty = simp(bv(eng.load(st, at('type_'), INT(32)), 32))
        ln = at('line_')
        st.log.append(('push', ty, get_sv(eng, st, at('str_')), bv(eng.load(st, ln, INT(32)), 32), bv(eng.load(st, RP(q.r, 0, ln.off + 4), INT(32)), 32)))

    def c_munch(self, eng, st, a, ins):
        """munch(s, word): steps to the last letter when exactly that word is at s (proved by lex:keyword match)"""
        p = eng.load(st, a[0], PTR)
        b = st.regs[a[1].r].meta.get('bytes') if isinstance(a[1], RP) else None
        if not isinstance(p, RP) or p.r != 'text' or not b or not is_c(a[1].idx): raise Undecided('match of %r' % (a,))
        b = b[a[1].idx:]
        k = b[:b.index(0)].decode('latin1')
        if k not in WORDS: raise Undecided('match of %r' % k)
        g = bv(p.idx, 64)
        for i in range(len(k) + 1): eng.inst(st, simp(g + i))
        c = matches(k, g)

        def yes(s):
            eng.store(s, a[0], PTR, RP('text', simp(g + len(k) - 1), 0))
            return 1
        return [Alt(c, yes), Alt(z3.Not(c), lambda s: 0)]

    def c_val(self, eng, st, a, ins):
        """push_val_(start, end): pushes the number written there on the current line (proved by literal:number)"""
        lo = self.off('lexer_t', 'line_')
        st.log.append(('val', a[1], a[2], bv(eng.load(st, RP('lexer', 0, lo), INT(32)), 32), bv(eng.load(st, RP('lexer', 0, lo + 4), INT(32)), 32)))

    def line(self, s):
        o = self.off('lexer_t', 'line_') + 4
        c = s.regs['lexer'].cells.get(o)
        return bv(c[1], 32) if c else z3.BitVec('lexer.line0', 32)

    def events(self, s):
        i = max(i for i, x in enumerate(s.log) if x[0] == 'turn') if any(x[0] == 'turn' for x in s.log) else -1
        return [x for x in s.log[i + 1:] if x[0] in ('push', 'val', 'error')]

    def here(self, eng, s, l, x, nm): eng.prove(s, z3.And(x[-2] == z3.BitVec('file', 32), x[-1] == l), nm + ' is on its line')

    def word(self, w, g):
        """the word at g is that keyword"""
        return z3.And(WORD(g) - g == len(w), *[low8(CH(g + i)) == ord(x) for i, x in enumerate(w)])

    def text(self, eng, s, sv, a, b, nm):
        eng.prove(s, bv(sv.n, 64) == b - a, nm + ': whole text')
        eng.prove(s, z3.Implies(z3.ULT(J, b - a), bv(sv.fun.read(J), 8) == CH(a + J)), nm + ': exact text')

    def turn(self, eng, s, g, l, ev):
        """obligations on one turn at g; where the next one has to be"""
        c = CH(g)
        if not ev:
            eng.prove(s, space(c), 'only white space is skipped')
            return g + 1, l
        x = ev[0]
        if len(ev) != 1 or x[0] == 'error':
            eng.prove(s, False, 'one token at a time')
            return g + 1, l
        if x[0] == 'val':
            DIG.facts(eng, s, g)
            d = DIG(g)
            for n, i in iters(s):
                if must(eng, d == g + i):
                    d = simp(g + i)
                    eng.assume(s, DIG(g) == d)
                    break
            DIG.facts(eng, s, simp(d + 1))
            end = z3.If(eq(CH(d), '.'), DIG(simp(d + 1)), d)
            self.here(eng, s, l, x, 'a number')
            ok = all(isinstance(p, RP) and p.r == 'text' for p in x[1:3])
            eng.prove(s, ok, 'a number is taken from the text')
            eng.prove(s, digit(c), 'a number starts with a digit')
            if ok: eng.prove(s, z3.And(bv(x[1].idx, 64) == g, bv(x[2].idx, 64) == end), 'a number is taken whole')
            return end, l
        ty, sv = x[1], x[2]
        t = self.tok.get(ty) if is_c(ty) else None
        if t is None:
            eng.prove(s, False, 'a known token')
            return g + 1, l
        if t == 'EOL':
            self.here(eng, s, l, x, 'a line end')
            EOLP.facts(eng, s, g)
            eng.prove(s, z3.Or(c == 10, eq(c, '#')), 'a line end is a line end')
            eng.prove(s, CH(EOLP(g)) == 10, 'the text goes on behind a line end')
            return EOLP(g) + 1, l + 1
        self.here(eng, s, l, x, 'a token')
        if t == 'STRING':
            e = STR(g + 1)
            STR.facts(eng, s, simp(g + 1))
            eng.prove(s, z3.And(eq(c, '"'), eq(CH(e), '"')), 'a string is in quotes')
            self.text(eng, s, sv, g + 1, e, 'a string')
            return e + 1, l
        if t == 'IDENT':
            WORD.facts(eng, s, g, [g] + [simp(g + i) for i in range(1, 9)])
            eng.prove(s, alpha(c), 'a name starts with a letter or underscore')
            self.text(eng, s, sv, g, WORD(g), 'a name')
            for k in WORDS: eng.prove(s, z3.Not(self.word(k, g)), 'a keyword is no name')
            return WORD(g), l
        if t in WORDS.values():
            WORD.facts(eng, s, g, [g] + [simp(g + i) for i in range(1, 9)])
            eng.prove(s, self.word(self.spell[t], g), 'a keyword is written out: ' + self.spell[t])
            eng.prove(s, bv(sv.n, 64) == 0, 'a keyword has no text')
            return WORD(g), l
        if t in OPS.values():
            o = self.spell[t]
            eng.prove(s, z3.And([CH(g + i) == ord(y) for i, y in enumerate(o)]), 'an operator is what is written: ' + o)
            if o + '=' in OPS: eng.prove(s, CH(g + 1) != ord('='), 'the longest operator is taken: ' + o)
            eng.prove(s, bv(sv.n, 64) == 0, 'an operator has no text')
            return g + len(o), l
        eng.prove(s, False, 'a token of the grammar')
        return g + 1, l

    def starts(self, c): return z3.Or(space(c), alnum(c), c == 10, *[eq(c, x[0]) for x in list(OPS) + ['"', '#']])


def t_lex(part):
    nm = 'lex'

    class W(LexWorld): pass
    W.part = staticmethod(PARTS[part])

    def post(w, eng, s, k, v):
        r = s.regs.get(w.G)
        g, l = (bv(r.cells[0][1], 64), bv(r.cells[8][1], 32)) if r is not None else (z3.BitVecVal(0, 64), z3.BitVecVal(1, 32))
        c = CH(g)
        ev = w.events(s)
        if k == 'throw':
            if len(ev) != 1 or ev[0][0] != 'error': return eng.prove(s, False, 'an error is reported at once')
            ln = ev[0][2]
            if z3.is_bv(ln) and ln.size() == 64: eng.prove(s, z3.And(z3.Extract(31, 0, ln) == z3.BitVec('file', 32), z3.Extract(63, 32, ln) == l), 'an error is on its line')
            else: raise Undecided('error at %r' % (ln,))
            if ev[0][1] == 'unexpected_character': eng.prove(s, z3.And(c != 0, z3.Not(w.starts(c))), 'only a character that starts no token is refused')
            elif ev[0][1] == 'string_quote_mismatch':
                STR.facts(eng, s, simp(g + 1))
                eng.prove(s, z3.And(eq(c, '"'), z3.Not(eq(CH(STR(g + 1)), '"'))), 'only a string that is left open is refused')
            else: eng.prove(s, False, 'an error of the lexer')
            return
        eng.prove(s, tobool(v), 'a text without mistakes is accepted')
        if not ev or ev[-1][0] != 'push' or w.tok.get(ev[-1][1]) != 'EOF' or len(ev) > 2: return eng.prove(s, False, 'the end of the text is marked')
        if len(ev) == 1: eng.prove(s, c == 0, 'the whole text is read')
        else:
            EOLP.facts(eng, s, g)
            w.here(eng, s, l, ev[0], 'a line end')
            eng.prove(s, w.tok.get(ev[0][1]) == 'EOL' and z3.And(eq(c, '#'), EOLP(g) == N), 'a comment may end the text')
    return Task('lex:turn ' + part, lambda T, setup: run(T, setup, W(T), r'^nano::lexer_t::lex\(', lambda w, eng, st: [w.L, RP('text'), z3.BitVec('file', 32)], post), info={'native': ('lex', 'reject')})


def t_munch(k):
    nm = 'keyword match'
    G0 = z3.BitVec('at', 64)

    class W(LexWorld):
        def make(self, eng):
            st = LexWorld.make(self, eng)
            eng.sum_all = False
            r = Reg('pos', 'pos', 'cells')
            r.cells = {0: (8, RP('text', G0, 0))}
            r.meta = {}
            r2 = Reg('kw', 'kw', 'seq')
            data = k.encode() + b'\0'
            r2.es, r2.n, r2.meta = 1, len(data), {'bytes': data}
            r2.f[0, 1] = Fun(const_bytes(data))
            st.regs['pos'], st.regs['kw'] = r, r2
            eng.assume(st, z3.ULT(G0, N))
            return st

    def post(w, eng, s, kd, v):
        if kd != 'ret': return eng.prove(s, False, nm + ': does not throw')
        p = eng.load(s, RP('pos'), PTR)
        eng.prove(s, tobool(v) == matches(k, G0), nm + ': yes exactly for the whole word')
        eng.prove(s, isinstance(p, RP) and p.r == 'text' and bv(p.idx, 64) == z3.If(tobool(v), G0 + len(k) - 1, G0), nm + ': stops at its last letter')

    def body(T, setup):
        w = W(T)
        w.contracts = w.contracts[:-1]
        def st2(eng):
            eng.SYM_UNROLL = 64
            return setup(eng)
        return run(T, st2, w, MUNCH, lambda w, eng, st: [RP('pos'), RP('kw')], post)
    return Task('lex:keyword match %s' % k, body, info={'native': ('lex',)})




# ------------------------------------------------------------ numbers
S0, E0, P0 = z3.BitVec('num.start', 64), z3.BitVec('num.end', 64), z3.BitVec('num.point', 64)
F64, F32 = z3.Float64(), z3.Float32()
VAL, DBL, SCL = z3.Function('num.int', B64, B32), z3.Function('num.digits', B64, F64), z3.Function('num.scale', B64, F64)
RNE = z3.RNE()


MUL, ADD, DIV = [z3.Function(o, F64, F64, F64) for o in ('fmul', 'fadd', 'fdiv')]
TEN, ONE, ZERO = [z3.FPVal(x, F64) for x in (10, 1, 0)]


def num_step(i):
    """what the value is after one more character"""
    c = CH(i)
    dig = z3.ZeroExt(24, c) - ord('0')
    fd = z3.fpSignedToFP(RNE, dig, F64)
    far = z3.fpGT(SCL(i), z3.FPVal(1e60, F64))
    dot = eq(c, '.')
    return z3.And(VAL(i + 1) == z3.If(dot, VAL(i), VAL(i) * 10 + dig),
                  DBL(i + 1) == z3.If(z3.Or(dot, far), DBL(i), ADD(MUL(DBL(i), TEN), fd)),
                  SCL(i + 1) == z3.If(dot, ONE, z3.If(far, SCL(i), MUL(SCL(i), TEN))),
                  # lemmas on the product, see literal:scale
                  z3.Implies(SCL(i) == ZERO, MUL(SCL(i), TEN) == ZERO), z3.Implies(z3.fpGEQ(SCL(i), ONE), z3.fpGEQ(MUL(SCL(i), TEN), ONE)))


def t_scale():
    """the lemmas about multiplication by ten that the proof of literal:number uses, on IEEE doubles"""
    def body(T, setup):
        eng = setup(LexWorld(T).engine())
        st = State()
        x = z3.FP('x', F64)
        eng.prove(st, z3.Implies(x == ZERO, z3.fpMul(RNE, x, TEN) == ZERO), 'ten times nothing is nothing', where='lemma')
        eng.prove(st, z3.Implies(z3.fpGEQ(x, ONE), z3.fpGEQ(z3.fpMul(RNE, x, TEN), ONE)), 'ten times at least one is at least one', where='lemma')
        eng.canary = True
        return eng
    return Task('literal:scale', body, info={'native': ('lex',)})


class NumLoop:
    events = True
    writes = True

    def __init__(self, w, eng, st, phis): self.names = [p[0] for p in phis]

    def havoc(self, eng, st, sh): return ()

    def raw(self, loc, s1, pv): return pv[self.names.index(loc[1])] if loc[0] == 'phi' else s1.regs[loc[1]].cells[loc[2]][1]

    def havoc2(self, eng, st, sh, hv):
        for loc, (x, v, w) in hv.items():
            if isinstance(x, RP) and x.r == 'text':
                sh.pc.append(num_step(bv(x.idx, 64)))
                sh.quant[0] and eng.inst(sh, x.idx)

    def cands(self, eng, st, sh, hv, cur):
        out = []
        ps = [(loc, bv(x.idx, 64), bv(v.idx, 64)) for loc, (x, v, w) in hv.items() if isinstance(x, RP) and x.r == 'text']
        for pl, px, pv0 in ps:
            at = lambda s1, pv, pl=pl: bv(self.raw(pl, s1, pv).idx, 64)
            out.append(('in', z3.And(z3.UGE(pv0, S0), z3.ULE(pv0, E0)), z3.And(z3.UGE(px, S0), z3.ULE(px, E0)), lambda s1, pv, at=at: z3.And(z3.UGE(at(s1, pv), S0), z3.ULE(at(s1, pv), E0))))
            for loc, (x, v, w) in hv.items():
                if z3.is_fp(x):
                    for f in ((DBL, SCL) if x.sort() == F64 else ()):
                        out.append(('fp', v == f(pv0), x == f(px), lambda s1, pv, at=at, loc=loc, f=f: self.raw(loc, s1, pv) == f(at(s1, pv))))
                elif w == 32 and not isinstance(x, Ptr):
                    out.append(('int', bv(v, 32) == VAL(pv0), bv(x, 32) == VAL(px), lambda s1, pv, at=at, loc=loc: bv(self.raw(loc, s1, pv), 32) == VAL(at(s1, pv))))
            sgn = lambda p: z3.If(z3.ULE(p, P0), SCL(p) == z3.FPVal(0, F64), z3.fpGEQ(SCL(p), z3.FPVal(1, F64)))
            out.append(('scale', sgn(pv0), sgn(px), lambda s1, pv, at=at, sgn=sgn: sgn(at(s1, pv))))
        return out

    def settle(self, eng, st, sh, phis, backs, holds): pass


def t_number():
    nm = 'number'

    class W(LexWorld):
        def __init__(self, T):
            LexWorld.__init__(self, T)
            self.contracts = self.contracts[:2]

        def cut_hook(self, eng, st, key, phis): return NumLoop(self, eng, st, phis)

        def make(self, eng):
            st = LexWorld.make(self, eng)
            eng.cut_loops = True
            eng.fp_uf = True
            eng.assume(st, z3.And(z3.ULT(S0, E0), z3.ULE(E0, N), z3.UGT(P0, S0), z3.ULE(P0, E0)))
            q = lambda i: z3.Implies(z3.And(z3.UGE(bv(i, 64), S0), z3.ULT(bv(i, 64), E0)), z3.If(bv(i, 64) == P0, CH(bv(i, 64)) == ord('.'), digit(CH(bv(i, 64)))))
            st.quant.append(q)
            eng.assume(st, z3.And(VAL(S0) == 0, DBL(S0) == z3.FPVal(0, F64), SCL(S0) == z3.FPVal(0, F64)))
            return st

        def c_push(self, eng, st, a, ins):
            """token_stream_t::push: appends that token (proved by tokens:push)"""
            LexWorld.c_push(self, eng, st, a, ins)
            st.log[-1] = st.log[-1] + (eng.load(st, RP(a[1].r, 0, a[1].off + self.off('token_t', 'val_')), INT(32)),)

    def post(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, nm + ': does not throw')
        ev = [x for x in s.log if x[0] == 'push']
        if len(ev) != 1 or not is_c(ev[0][1]): return eng.prove(s, False, nm + ': is one token')
        x = ev[0]
        lo = w.off('lexer_t', 'line_')
        eng.prove(s, z3.And(x[3] == bv(eng.load(s, RP('lexer', 0, lo), INT(32)), 32), x[4] == bv(eng.load(s, RP('lexer', 0, lo + 4), INT(32)), 32)), nm + ': is on the current line')
        t = w.tok.get(x[1])
        eng.prove(s, (t == 'INT') if t != 'FLOAT' else True, nm + ': is a number')
        eng.prove(s, z3.BoolVal(t == 'FLOAT') == (P0 != E0), nm + ': is a float exactly when it has a point')
        if t == 'INT': eng.prove(s, bv(x[5], 32) == VAL(E0), nm + ': has the value of its digits')
        else:
            val = x[5]
            want = z3.fpFPToFP(RNE, DIV(DBL(E0), SCL(E0)), F32)
            got = val if z3.is_fp(val) else z3.fpBVToFP(bv(val, 32), F32)
            eng.prove(s, got == want, nm + ': has the value of its digits')
    return Task('literal:number', lambda T, setup: run(T, setup, W(T), r'^nano::lexer_t::push_val_\(', lambda w, eng, st: [w.L, RP('text', S0), RP('text', E0)], post), info={'native': ('lex',)})


# ------------------------------------------------------------ the token list
TS, TK = 'token_stream_t', 'token_t'


class TokWorld(AstWorld):
    def make(self, eng):
        st = State()
        self.S = self.new(eng, st, 'ts', TS)
        self.links[TS, 'nano_'] = lambda e, s, r: self.new(e, s, 'nano', 'nano_t')
        self.links['nano_t', 'errors_'] = lambda e, s, r: self.new(e, s, 'errors', 'error_manager_t')
        self.IDX, self.M = z3.BitVec('ts.index_', 32), z3.BitVec('ts.stream_.n', 64)
        eng.bound(st, self.M, 1 << 30)
        return st

    def lazy_obj(self, eng, st, r, off, kind, T=None):
        v = AstWorld.lazy_obj(self, eng, st, r, off, kind, T)
        if kind == 'vector':
            q = st.regs[v.seq]
            o = self.off(TK, 'str_')
            if (o, 'string') not in q.f: q.f[o, 'string'] = Fun(lambda i: sv_of_sid(z3.Function(v.seq + '.text.sid', B64, B64)(bv(i, 64))))
        return v

    def seq(self, eng, s): return the_obj(eng, s, RP('ts', 0, self.off(TS, 'stream_')), 'vector', 'nano::token_t').seq
    def fld(self, eng, s, i, f, add=0, w=4):
        q = s.regs[self.seq(eng, s)]
        return bv(eng.seq_field(s, q, self.off(TK, f) + add, w, INT(8 * w)).read(bv(i, 64)), 8 * w)
    def old(self, eng, i, f, add=0): return z3.Function('ts.stream_.f%d_4' % (self.off(TK, f) + add), B64, B32)(bv(i, 64))

    def frame(self, eng, s, nm):
        q = s.regs[self.seq(eng, s)]
        eng.prove(s, bv(q.n, 64) == self.M, nm + ': no token is added or lost')
        eng.prove(s, all(not f.layers for f in q.f.values()), nm + ': no token is changed')

    def state(self, eng, s, taken, nm):
        i = z3.ZeroExt(32, self.IDX)
        ld = lambda o: bv(eng.load(s, RP('ts', 0, o), INT(32)), 32)
        lo = self.off(TS, 'line_')
        o = self.off(TS, 'index_')
        eng.prove(s, ld(o) == (self.IDX + 1 if taken else self.IDX), nm + (': steps over one token' if taken else ': takes no token'))
        for a in (0, 4): eng.prove(s, ld(lo + a) == (self.old(eng, i, 'line_', a) if taken else z3.BitVec('ts.line_' if a == 0 else 'ts.line_+4', 32)) if taken else True, nm + ': line of the token taken')


def t_tok(nm, fn, args, post, pre=None):
    return Task('tokens:' + nm, lambda T, setup: run(T, setup, TokWorld(T), fn, args, post, pre), info={'native': ('lex', 'full')})


def token_tasks():
    K = z3.BitVec('kind', 32)
    inr = lambda w, eng, st: eng.assume(st, z3.ULT(z3.ZeroExt(32, w.IDX), w.M))

    def is_it(w, eng, s, v, nm):
        eng.prove(s, isinstance(v, RP) and v.r == w.seq(eng, s) and is_c(v.off) and v.off == 0 and bv(v.idx, 64) == z3.ZeroExt(32, w.IDX), nm + ': gives the next token')

    def p_pop(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, 'pop: does not throw')
        is_it(w, eng, s, v, 'pop')
        w.state(eng, s, True, 'pop')
        w.frame(eng, s, 'pop')

    def p_found(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, 'found: does not throw')
        m = w.old(eng, z3.ZeroExt(32, w.IDX), 'type_') == K
        no = isinstance(v, Null)
        eng.prove(s, z3.Not(m) if no else m, 'found: exactly a token of that kind')
        if not no: is_it(w, eng, s, v, 'found')
        w.state(eng, s, not no, 'found')
        w.frame(eng, s, 'found')

    def p_popk(w, eng, s, k, v):
        m = w.old(eng, z3.ZeroExt(32, w.IDX), 'type_') == K
        if k == 'throw':
            e = [x for x in s.log if x[0] == 'error']
            eng.prove(s, z3.Not(m), 'expect: only another kind is refused')
            eng.prove(s, len(e) == 1 and e[0][1] == 'unexpected_token', 'expect: reports an unexpected token')
            if e: is_it(w, eng, s, e[0][2], 'expect')
        else:
            eng.prove(s, m, 'expect: only that kind is taken')
            is_it(w, eng, s, v, 'expect')
            w.state(eng, s, True, 'expect')
        w.frame(eng, s, 'expect')

    def p_peek(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, 'peek: does not throw')
        is_it(w, eng, s, v, 'peek')
        w.state(eng, s, False, 'peek')
        w.frame(eng, s, 'peek')

    def p_type(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, 'type: does not throw')
        eng.prove(s, bv(v, 32) == w.old(eng, z3.ZeroExt(32, w.IDX), 'type_'), 'type: the kind of the next token')
        w.state(eng, s, False, 'type')
        w.frame(eng, s, 'type')

    def p_reset(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, 'reset: does not throw')
        eng.prove(s, bv(s.regs[w.seq(eng, s)].n, 64) == 0, 'reset: no tokens')
        eng.prove(s, bv(eng.load(s, RP('ts', 0, w.off(TS, 'index_')), INT(32)), 32) == 0, 'reset: at the start')

    def tok(w, eng, st):
        r = Reg('tok', 'tok', 'cells')
        r.meta = {}
        for f, a in (('type_', 0), ('line_', 0), ('line_', 4), ('val_', 0)): r.cells[w.off(TK, f) + a] = (4, z3.BitVec('tok.%s%d' % (f, a), 32))
        r.objs[w.off(TK, 'str_')] = sv_of_sid(z3.BitVec('tok.sid', 64))
        st.regs['tok'] = r
        eng.assume(st, w.IDX == 0)
        return [w.S, RP('tok')]

    def p_push(w, eng, s, k, v):
        if k != 'ret': return eng.prove(s, False, 'push: does not throw')
        q = s.regs[w.seq(eng, s)]
        eng.prove(s, bv(q.n, 64) == w.M + 1, 'push: one more token')
        for f, a in (('type_', 0), ('line_', 0), ('line_', 4), ('val_', 0)):
            eng.prove(s, w.fld(eng, s, w.M, f, a) == z3.BitVec('tok.%s%d' % (f, a), 32), 'push: the token itself')
            eng.prove(s, z3.Implies(z3.ULT(J, w.M), w.fld(eng, s, J, f, a) == w.old(eng, J, f, a)), 'push: earlier tokens stay')
        o = w.off(TK, 'str_')
        sid = lambda x: x.sid if x.sid is not None else z3.BitVecVal(-1, 64)
        eng.prove(s, sid(q.f[o, 'string'].read(w.M)) == z3.BitVec('tok.sid', 64), 'push: the text of the token')
        eng.prove(s, z3.Implies(z3.ULT(J, w.M), sid(q.f[o, 'string'].read(J)) == z3.Function('ts.stream_.text.sid', B64, B64)(J)), 'push: earlier texts stay')
        eng.prove(s, bv(eng.load(s, RP('ts', 0, w.off(TS, 'index_')), INT(32)), 32) == 0, 'push: still at the start')
    me = lambda w, eng, st: [w.S]
    return [t_tok('pop', r'^nano::token_stream_t::pop\(\)', me, p_pop, inr), t_tok('found', r'^nano::token_stream_t::found\(', lambda w, eng, st: [w.S, K], p_found, inr),
            t_tok('expect', r'^nano::token_stream_t::pop\(nano::token_e\)', lambda w, eng, st: [w.S, K], p_popk, inr), t_tok('peek', r'^nano::token_stream_t::peek\(\)', me, p_peek, inr),
            t_tok('type', r'^nano::token_stream_t::type\(\)', me, p_type, inr), t_tok('reset', r'^nano::token_stream_t::reset\(\)', me, p_reset), t_tok('push', r'^nano::token_stream_t::push\(', tok, p_push)]


def lex_tasks(): return [t_lex(p) for p in PARTS] + [t_munch(k) for k in WORDS] + [t_number(), t_scale()] + token_tasks()
