"""Path-wise verification-condition generator over LLVM IR.

Memory is a set of disjoint blocks (CompCert style).  `Reg` blocks are either
cell blocks (struct-like, offset -> value) or sequences (vector buffers, char
arrays: symbolic length, functional contents).  The garbage-collected value
heap is a separate family of blocks indexed by a symbolic base address with
one functional map per view (header word, type word, byte payload, pointer
payload).  See DESIGN.md section 2.
"""
import os
import re, sys, time, struct
import z3
from .ir import Unsupported, Ty, PTR, INT, FLOAT, DOUBLE

sys.setrecursionlimit(20000)
MASK = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64, 128)}
RNE = z3.RNE()
F32, F64 = z3.Float32(), z3.Float64()


class Undecided(Exception):
    """the verifier could not reach a verdict (not a violation)"""


class NeedSummary(Exception):
    def __init__(self, key): self.key = key


class PathEnd(Exception):
    pass


# ------------------------------------------------------------------ values
def is_c(v): return isinstance(v, int)


def bv(v, w):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return z3.BitVecVal(v & MASK[w], w) if w in MASK else z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def norm(v):
    """fold a z3 bit-vector/bool numeral to a python int"""
    if isinstance(v, (int, bool)): return int(v)
    if isinstance(v, z3.BitVecNumRef): return v.as_long()
    if z3.is_true(v): return 1
    if z3.is_false(v): return 0
    return v


def simp(v):
    if isinstance(v, int): return v
    return norm(z3.simplify(v))


def tobool(v):
    """i1 value -> z3 Bool / python bool"""
    if isinstance(v, (int, bool)): return z3.BoolVal(bool(v))
    if z3.is_bool(v): return v
    return v != 0


class Ptr:
    __slots__ = ()


class Null(Ptr):
    def __repr__(self): return 'null'


NULL = Null()


class RP(Ptr):
    """pointer into region: byte address = idx*es + off"""
    __slots__ = ('r', 'idx', 'off')

    def __init__(self, r, idx=0, off=0): self.r, self.idx, self.off = r, idx, off
    def __repr__(self): return 'RP(%s,%s,%s)' % (self.r, self.idx, self.off)


class HP(Ptr):
    """pointer into gc heap block: base term (0 = null), byte offset off + idx*scale"""
    __slots__ = ('b', 'off', 'idx', 'sc')

    def __init__(self, b, off=0, idx=0, sc=1): self.b, self.off, self.idx, self.sc = b, off, idx, sc
    def __repr__(self): return 'HP(%s,%s,%s*%s)' % (self.b, self.off, self.idx, self.sc)


class FnP(Ptr):
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __repr__(self): return 'FnP(%s)' % self.name


class HostFn(Ptr):
    """symbolic host function pointer (handler / syscall); term is a BV64, 0 = null"""
    __slots__ = ('t', 'kind')
    def __init__(self, t, kind): self.t, self.kind = t, kind
    def __repr__(self): return 'HostFn(%s,%s)' % (self.kind, self.t)


class Opq(Ptr):
    """opaque pointer, BV64 term"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'Opq(%s)' % self.t


class MaybeP(Ptr):
    """cond ? ptr : null"""
    __slots__ = ('c', 'p')
    def __init__(self, c, p): self.c, self.p = c, p
    def __repr__(self): return 'MaybeP(%s,%s)' % (self.c, self.p)


class PInt:
    __slots__ = ('p',)
    def __init__(self, p): self.p = p


# ------------------------------------------------------- functional arrays
def lin_eq(a, b):
    """True/False/z3 for a == b (BV64 or ints)"""
    if is_c(a) and is_c(b): return a == b
    if a is b: return True
    d = z3.simplify(bv(a, 64) - bv(b, 64))
    if isinstance(d, z3.BitVecNumRef): return d.as_long() == 0
    return bv(a, 64) == bv(b, 64)


SLOW = float(os.environ.get('NV_SLOW', '0'))


def lin_of(t, bounds, w=64):
    """bit-vector term -> (constant, {key: coefficient}, {key: (bound name, hi)}): the integer value of the term, congruent
    modulo 2^w, over atoms with known bounds; None when an atom has none"""
    cst, co, at = 0, {}, {}

    def sg(n, w): return n - (1 << w) if n >> (w - 1) else n

    def add(r, k):
        nonlocal cst
        cst += k * r[0]
        for key, m in r[1].items(): co[key] = co.get(key, 0) + k * m
        at.update(r[2])

    def go(x, k):
        nonlocal cst
        if isinstance(x, z3.BitVecNumRef):
            cst += k * sg(x.as_long(), w)
            return True
        d = x.decl().kind()
        if d == z3.Z3_OP_BADD: return all([go(y, k) for y in x.children()])
        if d == z3.Z3_OP_BMUL and x.num_args() == 2 and isinstance(x.arg(0), z3.BitVecNumRef): return go(x.arg(1), k * sg(x.arg(0).as_long(), w))
        if d == z3.Z3_OP_BNEG: return go(x.arg(0), -k)
        if d == z3.Z3_OP_BSUB and x.num_args() == 2: return go(x.arg(0), k) and go(x.arg(1), -k)
        if d == z3.Z3_OP_EXTRACT and x.params() == [w - 1, 0]:
            r = lin_of(x.arg(0), bounds, x.arg(0).size())
            if r is None: return False
            add(r, k)
            return True
        if d == z3.Z3_OP_CONCAT and x.num_args() == 2 and isinstance(x.arg(0), z3.BitVecNumRef) and x.arg(0).as_long() == 0 or d == z3.Z3_OP_ZERO_EXT:
            y = x.arg(x.num_args() - 1)
            r = lin_of(y, bounds, y.size())
            v = r and lin_exact(r, y.size())
            if not v: return False
            add(v, k)
            return True
        if d == z3.Z3_OP_SIGN_EXT:
            y = x.arg(0)
            r = lin_of(y, bounds, y.size())
            v = r and lin_exact(r, y.size() - 1)
            if not v: return False
            add(v, k)
            return True
        key = x.sexpr()
        h = bounds.get(key)
        if h is None: return False
        co[key] = co.get(key, 0) + k
        at[key] = h
        return True
    return (cst, co, at) if go(t, 1) else None


def lin_range(r):
    lo = hi = r[0]
    for key, m in r[1].items():
        if m > 0: hi += m * r[2][key]
        else: lo += m * r[2][key]
    return lo, hi


def lin_exact(r, w):
    """the linear form whose integer value is the unsigned value of the w-bit term, or None"""
    lo, hi = lin_range(r)
    k = lo >> w
    if hi >> w != k: return None
    return r[0] - (k << w), r[1], r[2]


def lin_decide(c, bounds):
    """decide a comparison of linear bit-vector terms whose atoms have known bounds: True, False or None"""
    if not bounds: return None
    k = c.decl().kind()
    if k == z3.Z3_OP_NOT:
        r = lin_decide(c.arg(0), bounds)
        return None if r is None else not r
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        rs = [lin_decide(x, bounds) for x in c.children()]
        stop = k == z3.Z3_OP_OR
        if stop in rs: return stop
        return None if None in rs else not stop
    if k not in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_EQ, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ): return None
    a, b = c.arg(0), c.arg(1)
    if not z3.is_bv(a): return None
    w = a.size()
    sgn = k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ)
    out = []
    for t in (a, b):
        r = lin_of(t, bounds, w)
        if r is None: return None
        if sgn:
            r = lin_exact((r[0] + (1 << w - 1), r[1], r[2]), w)
        else: r = lin_exact(r, w)
        if r is None: return None
        out.append(r)
    (c1, k1, a1), (c2, k2, a2) = out
    co = dict(k2)
    for key, m in k1.items(): co[key] = co.get(key, 0) - m
    at = dict(a1)
    at.update(a2)
    lo, hi = lin_range((c2 - c1, co, at))                       # range of b - a
    if k == z3.Z3_OP_EQ: return True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
    if k in (z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ): lo, hi = -hi, -lo
    if k in (z3.Z3_OP_ULT, z3.Z3_OP_UGT, z3.Z3_OP_SLT, z3.Z3_OP_SGT): return True if lo > 0 else False if hi <= 0 else None
    return True if lo >= 0 else False if hi < 0 else None


class Fun:
    """immutable functional array idx -> value with layered updates.
    base: callable(idx)->value (value: z3 term).  layers newest last."""
    __slots__ = ('base', 'layers', 'tag')

    def __init__(self, base, layers=(), tag=None):
        self.base, self.layers, self.tag = base, layers, tag

    def write(self, idx, val):
        return Fun(self.base, self.layers + (('w', idx, val),), self.tag)

    def range(self, start, n, src):
        """src: callable(relative index)"""
        return Fun(self.base, self.layers + (('r', start, n, src),), self.tag)

    def guarded(self, cond_val):
        """cond_val(idx) -> (cond, val) ; val used when cond"""
        return Fun(self.base, self.layers + (('g', cond_val),), self.tag)

    def read(self, idx, n=None):
        ls = self.layers
        i = len(ls) if n is None else n
        pend = []
        while True:
            if i == 0:
                res = self.base(idx)
                break
            L = ls[i - 1]
            i -= 1
            if L[0] == 'w':
                e = lin_eq(idx, L[1])
                if e is True:
                    res = L[2]
                    break
                if e is False: continue
                pend.append((e, L[2]))
            elif L[0] == 'r':
                rel = simp(bv(idx, 64) - bv(L[1], 64))
                c = z3.simplify(z3.ULT(bv(rel, 64), bv(L[2], 64)))
                if z3.is_true(c):
                    res = L[3](rel)
                    break
                if z3.is_false(c): continue
                pend.append((c, L[3](rel)))
            else:
                c, v = L[1](idx)
                c = z3.simplify(c)
                if z3.is_true(c):
                    res = v
                    break
                if z3.is_false(c): continue
                pend.append((c, v))
        for c, v in reversed(pend):
            res = ite(c, v, res)
        return res


class Fun2:
    """functional map (base, idx) -> value, for heap payload; header maps use idx=0"""
    __slots__ = ('base', 'layers')

    def __init__(self, base, layers=()):
        self.base, self.layers = base, layers

    def write(self, b, idx, val): return Fun2(self.base, self.layers + (('w', b, idx, val),))
    def range(self, b, start, n, src): return Fun2(self.base, self.layers + (('r', b, start, n, src),))
    def guarded(self, f): return Fun2(self.base, self.layers + (('g', f),))

    def read(self, b, idx=0):
        i = len(self.layers)
        pend = []
        while True:
            if i == 0:
                res = self.base(b, idx)
                break
            L = self.layers[i - 1]
            i -= 1
            if L[0] == 'g':
                c, v = L[1](b, idx)
                c = z3.simplify(c)
                if z3.is_true(c):
                    res = v
                    break
                if not z3.is_false(c): pend.append((c, v))
                continue
            eb = base_eq(b, L[1])
            if eb is False: continue
            if L[0] == 'w':
                e = lin_eq(idx, L[2])
                if e is False: continue
                c = conj(eb, e)
                if c is True:
                    res = L[3]
                    break
                pend.append((c, L[3]))
            else:
                rel = simp(bv(idx, 64) - bv(L[2], 64))
                c = z3.simplify(z3.ULT(bv(rel, 64), bv(L[3], 64)))
                if z3.is_false(c): continue
                c = conj(eb, True if z3.is_true(c) else c)
                if c is True:
                    res = L[4](rel)
                    break
                pend.append((c, L[4](rel)))
        for c, v in reversed(pend):
            res = ite(c, v, res)
        return res


FRESH_PREFIX = 'new!'


def is_fresh_base(b):
    return z3.is_const(b) and not isinstance(b, z3.BitVecNumRef) and b.decl().name().startswith(FRESH_PREFIX)


def base_eq(a, b):
    if a is b or a.eq(b): return True
    if is_fresh_base(a) and is_fresh_base(b): return False
    if isinstance(a, z3.BitVecNumRef) and isinstance(b, z3.BitVecNumRef): return a.as_long() == b.as_long()
    return a == b


def conj(a, b):
    if a is True: return b
    if b is True: return a
    return z3.And(a, b)


def ite(c, a, b):
    if a is b: return a
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        if a == b: return a
        raise Undecided('ite of raw ints')
    if isinstance(a, (int, bool)):
        a = tobool(a) if z3.is_bool(b) else z3.BitVecVal(a, b.size())
    if isinstance(b, (int, bool)):
        b = tobool(b) if z3.is_bool(a) else z3.BitVecVal(b, a.size())
    if not z3.is_expr(a) or not z3.is_expr(b):
        return merge_obj(c, a, b)
    if a.eq(b): return a
    return z3.If(c, a, b)


def merge_obj(c, a, b):
    m = getattr(a, 'merge', None)
    if m and type(a) is type(b): return m(c, b)
    raise Undecided('merge of %r / %r' % (a, b))


# ------------------------------------------------------------------ regions
class Reg:
    __slots__ = ('id', 'name', 'kind', 'cells', 'objs', 'lazy', 'es', 'n', 'f', 'meta')

    def __init__(self, id, name, kind):
        self.id, self.name, self.kind = id, name, kind
        self.cells, self.objs, self.lazy = {}, {}, None
        self.es, self.n, self.f, self.meta = 0, 0, {}, {}

    def copy(self):
        r = Reg(self.id, self.name, self.kind)
        r.cells, r.objs, r.lazy = dict(self.cells), dict(self.objs), self.lazy
        r.es, r.n, r.f, r.meta = self.es, self.n, dict(self.f), self.meta
        return r


class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'env', 'ret', 'visits', 'allocas', 'tag')

    def __init__(self, fn):
        self.fn, self.blk, self.prev, self.ip = fn, fn.order[0], None, 0
        self.env, self.ret, self.visits, self.allocas, self.tag = {}, None, {}, [], None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.prev, f.ip = self.fn, self.blk, self.prev, self.ip
        f.env, f.ret, f.visits, f.allocas, f.tag = dict(self.env), self.ret, dict(self.visits), self.allocas, self.tag
        return f


class State:
    def __init__(self):
        self.frames = []
        self.regs = {}
        self.pc = []
        self.heap = None
        self.log = []          # ghost event log
        self.ghost = {}
        self.fresh = []        # fresh heap bases: (base, size)
        self.quant = []        # lazily instantiated universal facts: callable(idx)->Bool or None
        self.exc = None
        self.trace = []

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.regs = dict(self.regs)
        s.pc = list(self.pc)
        s.heap = dict(self.heap) if self.heap is not None else None
        s.log = list(self.log)
        s.ghost = dict(self.ghost)
        s.fresh = list(self.fresh)
        s.quant = list(self.quant)
        s.exc = self.exc
        s.trace = list(self.trace)
        return s

    def wr(self, rid):
        r = self.regs[rid].copy()
        self.regs[rid] = r
        return r


class Alt:
    """alternative outcome of a modelled call"""
    def __init__(self, cond, fn): self.cond, self.fn = cond, fn


class Throw:
    def __init__(self, ty, val=None): self.ty, self.val = ty, val


class Obligation:
    __slots__ = ('name', 'status', 'model', 'where', 't', 'smt', 'info')

    def __init__(self, name, status, where, model=None, t=0.0, info=None):
        self.name, self.status, self.where, self.model, self.t, self.info = name, status, where, model, t, info
        self.smt = None


class Engine:
    UNROLL = 64
    SYM_UNROLL = 5
    BOUND = 3

    def __init__(self, mod, models=None, timeout_ms=20000):
        self.m = mod
        self.models = models or []
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.nfresh = 0
        self.nreg = 0
        self.obs = []
        self.dedup = set()
        self.summarize = set()
        self.bounded_loops = {}
        self.cut = 0
        self.model_cache = {}
        self.used_models = {}
        self.inlined = {}
        self.steps = 0
        self.max_steps = 3000000
        self.deadline = None
        self.on_end = None
        self.stop_hook = None
        self.npaths = 0
        self.smt_dump = None
        self.solver_time = 0.0
        self.trusted = set()
        self.gmem = {}
        self.collect_only = 0
        self.ghost_terms = []
        self.strw = []
        self.ioffs = []
        self.iterms = []
        self.contracts = []
        self.extra_val = {}
        self.ob_filter = None
        self.event_loops = set()
        self.bounds = {}

    # ---------------------------------------------------------- utilities
    def sym(self, name, w):
        self.nfresh += 1
        return z3.BitVec('%s!%d' % (name, self.nfresh), w)

    def symb(self, name):
        self.nfresh += 1
        return z3.Bool('%s!%d' % (name, self.nfresh))

    def new_reg(self, st, name, kind='cells'):
        self.nreg += 1
        rid = '%s#%d' % (name, self.nreg)
        r = Reg(rid, name, kind)
        st.regs[rid] = r
        return r

    def new_seq(self, st, name, es, n, fields=None):
        r = self.new_reg(st, name, 'seq')
        r.es, r.n = es, n
        if fields: r.f.update(fields)
        return r

    def assume(self, st, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        c = z3.simplify(c)
        if z3.is_true(c): return
        st.pc.append(c)
        self.solver.add(c)

    def bound(self, st, t, n):
        """assume t < n; only for a symbol that is given this bound wherever it is introduced"""
        self.assume(st, z3.ULT(t, n))
        self.bounds[t.sexpr()] = n - 1

    def check(self, *cs):
        t = time.time()
        r = self.solver.check(*cs)
        self.solver_time += time.time() - t
        return r

    def feasible(self, c):
        if isinstance(c, bool): return c
        q = lin_decide(c, self.bounds)
        if q is not None: return q
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        q = lin_decide(c, self.bounds)
        if q is not None: return q
        self.solver.push()
        self.solver.add(c)
        t0 = time.time()
        r = self.check()
        if SLOW and time.time() - t0 > SLOW: print('SLOW %.2f' % (time.time() - t0), c)
        self.solver.pop()
        return r != z3.unsat

    def where(self, st):
        return ' < '.join(self.short(f.fn.name) for f in reversed(st.frames[-4:]))

    def short(self, n):
        d = self.m.dem(n)
        return re.sub(r'\(.*$', '', d)

    def prove(self, st, goal, name, where=None, info=None):
        """discharge an obligation under the current path condition"""
        if self.collect_only: return True
        if self.ob_filter is not None and not self.ob_filter(name): return True
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        where = where or self.where(st)
        if z3.is_true(g):
            self.obs.append(Obligation(name, 'ok', where, info='simplify'))
            return True
        if lin_decide(g, self.bounds) is True or lin_decide(goal, self.bounds) is True:
            self.obs.append(Obligation(name, 'ok', where, info='linear bounds'))
            return True
        t = time.time()
        self.solver.push()
        self.solver.add(z3.Not(g))
        r = self.solver.check()
        if SLOW and time.time() - t > SLOW: print('SLOWP %.2f' % (time.time() - t), name, g)
        model = None
        status = 'ok' if r == z3.unsat else 'fail' if r == z3.sat else 'unknown'
        if r == z3.sat: model = self.solver.model()
        if self.smt_dump is not None and r == z3.unsat:
            self.smt_dump.append((name, self.solver.to_smt2()))
        if r == z3.unknown:
            # fresh, non-incremental attempt
            s2 = z3.Solver()
            s2.set('timeout', self.timeout_ms * 2)
            s2.add(*self.solver.assertions())
            r = s2.check()
            status = 'ok' if r == z3.unsat else 'fail' if r == z3.sat else 'unknown'
            if r == z3.sat: model = s2.model()
        if status == 'fail' and st.quant:
            # universal facts were only instantiated so far: decide with the full quantified facts
            s2 = z3.Solver()
            s2.set('timeout', min(self.timeout_ms, 8000))
            s2.add(*self.solver.assertions())
            x = z3.BitVec('q!i', 64)
            for q in st.quant:
                try: f = q(x)
                except Exception: f = None
                if f is not None and not z3.is_true(z3.simplify(f)): s2.add(z3.ForAll([x], f))
            r = s2.check()
            if r == z3.unsat: status, model = 'ok', None
            elif r == z3.sat: model = s2.model()
            else: status = 'candidate'
        self.solver.pop()
        dt = time.time() - t
        self.solver_time += dt
        o = Obligation(name, status, where, model, dt, info)
        if status != 'ok':
            o.smt = str(g)[:2000]
            o.info = dict(info or {}, log=[str(x)[:200] for x in st.log[-6:]], trace=st.trace[-30:])
        self.obs.append(o)
        return status == 'ok'

    def trap(self, st, goal, name):
        """safety obligation: must hold, execution continues only where it does"""
        g = z3.simplify(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        if z3.is_true(g):
            if not self.collect_only and (self.ob_filter is None or self.ob_filter(name)): self.obs.append(Obligation(name, 'ok', self.where(st), info='simplify'))
            return
        ok = self.prove(st, goal, name)
        if not ok or self.collect_only or self.ob_filter is not None:
            if not self.feasible(g): raise PathEnd()
            self.assume(st, g)

    def inst(self, st, idx):
        """instantiate pending universal facts at idx"""
        for q in st.quant:
            key = q
            f = q(idx)
            if f is not None: self.assume(st, f)

    # ------------------------------------------------------------- values
    def val(self, st, fr, v, ty):
        k = v[0]
        if k == 'loc': return fr.env[v[1]]
        if k == 'int': return v[1]
        if k == 'null': return NULL
        if k == 'glob': return self.gptr(st, v[1])
        if k == 'fp':
            return z3.FPVal(v[1], F32 if v[2].k == 'float' else F64)
        if k == 'undef': return self.undef(v[1])
        if k == 'zero': return self.zero(v[1])
        if k == 'gep':
            base = self.val(st, fr, v[2], PTR)
            return self.gep(st, v[1], base, [(INT(64), self.val(st, fr, i, INT(64)) if i[0] != 'int' else sgn(i[1], i[2].w)) for i in v[3]])
        if k == 'agg':
            return [self.val(st, fr, e, t) for t, e in v[1]]
        if k == 'cast':
            return self.cast(st, v[1], v[3], self.val(st, fr, v[2], v[3]), v[4])
        raise Unsupported('value kind ' + k)

    def undef(self, ty):
        if ty.k == 'int': return self.symb('undef') if ty.w == 1 else self.sym('undef', ty.w)
        if ty.k == 'ptr': return Opq(self.sym('undefp', 64))
        if ty.k == 'struct': return [self.undef(e) for e in ty.el]
        if ty.k in ('float', 'double'):
            self.nfresh += 1
            return z3.FP('undef!%d' % self.nfresh, F32 if ty.k == 'float' else F64)
        raise Unsupported('undef %r' % ty)

    def zero(self, ty):
        if ty.k == 'int': return 0
        if ty.k == 'ptr': return NULL
        if ty.k == 'float': return z3.FPVal(0.0, F32)
        if ty.k == 'double': return z3.FPVal(0.0, F64)
        if ty.k == 'struct': return [self.zero(e) for e in ty.el]
        raise Unsupported('zero %r' % ty)

    def gptr(self, st, name):
        if name in self.m.fn_text or name in self.m.fn_decl: return FnP(name)
        if name in self.m.aliases: return FnP(self.m.aliases[name])
        rid = '@' + name
        if rid not in st.regs:
            self.init_global(st, name, rid)
        return RP(rid)

    def init_global(self, st, name, rid):
        const, ty, init = self.m.glob(name)
        if ty.k == 'arr' and ty.el.k == 'int' and ty.el.w == 8:
            r = Reg(rid, name, 'seq')
            r.es, r.n = 1, ty.n
            if init is not None and init[0] == 'bytes':
                data = init[1]
                r.meta = {'bytes': data}
                r.f[0, 1] = Fun(const_bytes(data))
            elif init is not None and init[0] == 'zero':
                r.f[0, 1] = Fun(lambda i: z3.BitVecVal(0, 8))
            st.regs[rid] = r
            return
        if ty.k == 'arr' and init is not None and init[0] == 'agg' and ty.n > 0:
            es = self.m.sizeof(ty.el)
            r = Reg(rid, name, 'cells')
            st.regs[rid] = r
            self.init_cells(st, r, 0, ty, init)
            r.es, r.n = es, ty.n
            return
        r = Reg(rid, name, 'cells')
        st.regs[rid] = r
        if init is not None: self.init_cells(st, r, 0, ty, init)

    def init_cells(self, st, r, off, ty, c):
        if ty.k == 'struct':
            if c[0] == 'zero': es = [('zero', e) for e in ty.el]
            else: es = [e for _, e in c[1]]
            for i, (t, e) in enumerate(zip(ty.el, es)): self.init_cells(st, r, off + self.m.field_off(ty, i), t, e)
        elif ty.k == 'arr':
            s = self.m.sizeof(ty.el)
            if c[0] == 'bytes':
                for i, b in enumerate(c[1]): r.cells[off + i] = (1, b)
                return
            if c[0] == 'zero': es = [('zero', ty.el)] * min(ty.n, 4096)
            else: es = [e for _, e in c[1]]
            for i, e in enumerate(es): self.init_cells(st, r, off + i * s, ty.el, e)
        else:
            if c[0] == 'undef': return
            v = self.val(st, None, c, ty) if c[0] != 'zero' else self.zero(ty)
            r.cells[off] = (self.m.sizeof(ty), v)

    # -------------------------------------------------------------- memory
    def resolve(self, st, p):
        """strip MaybeP once known non-null"""
        return p

    def gep(self, st, ty, base, idx):
        if isinstance(base, MaybeP): base = base.p
        off = 0            # concrete byte offset
        syms = []          # (term64, scale)
        t = ty
        for n, (ity, i) in enumerate(idx):
            if n == 0:
                s = self.m.sizeof(t)
                if is_c(i): off += sgn(i, ity.w) * s if ity.w != 64 or i >= 0 else i * s
                else: syms.append((sext64(i, ity.w), s))
            elif t.k == 'struct':
                off += self.m.field_off(t, i)
                t = t.el[i]
            elif t.k == 'arr':
                t = t.el
                s = self.m.sizeof(t)
                if is_c(i): off += sgn(i, ity.w) * s
                else: syms.append((sext64(i, ity.w), s))
            else:
                raise Unsupported('gep into %r' % t)
        return self.padd(st, base, off, syms)

    def padd(self, st, base, off, syms):
        if isinstance(base, MaybeP): base = base.p
        if isinstance(base, Null):
            if off == 0 and not syms: return NULL
            return Opq(bv(off, 64))
        if isinstance(base, HP):
            o, i, sc = base.off + off, base.idx, base.sc
            for term, s in syms:
                if is_c(i) and i == 0: i, sc = term, s
                elif s == sc: i = simp(bv(i, 64) + term)
                else:
                    i = simp(bv(i, 64) * sc + term * s)
                    sc = 1
            return HP(base.b, o, i, sc)
        if isinstance(base, RP):
            if off == 0 and not syms: return base
            r = st.regs[base.r]
            if r.kind == 'cells':
                if syms:
                    tot = z3.BitVecVal(base.off + off, 64)
                    for term, s in syms: tot = tot + term * s
                    tot = simp(tot)
                    if is_c(tot): return RP(base.r, 0, sgn(tot, 64))
                    return RP(base.r, 0, tot)
                if is_c(base.off): return RP(base.r, 0, base.off + off)
                return RP(base.r, 0, simp(base.off + bv(off, 64)))
            es = r.es
            i, o = base.idx, base.off
            if es == 1:
                tot = bv(i, 64) + bv(o + off, 64)
                for term, s in syms: tot = tot + term * s
                return RP(base.r, simp(tot), 0)
            for term, s in syms:
                if s == es: i = simp(bv(i, 64) + term)
                elif s % es == 0: i = simp(bv(i, 64) + term * (s // es))
                else: raise Undecided('gep scale %d over element size %d in %s' % (s, es, r.name))
            o += off
            q, o = o // es, o % es
            if q: i = (i + q) & MASK[64] if is_c(i) else simp(i + bv(q, 64))
            return RP(base.r, i, o)
        if isinstance(base, Opq):
            t = base.t + bv(off, 64)
            for term, s in syms: t = t + term * s
            return Opq(z3.simplify(t))
        if isinstance(base, FnP) and off == 0 and not syms: return base
        raise Unsupported('gep on %r' % base)

    def tsize(self, ty): return self.m.sizeof(ty)

    def conv(self, v, ty):
        """reinterpret a stored value as ty"""
        k = ty.k
        if k == 'int':
            if isinstance(v, int): return v & MASK[ty.w] if ty.w in MASK else v
            if isinstance(v, (Ptr,)): return PInt(v)
            if isinstance(v, PInt): return v
            if z3.is_fp(v): return simp(z3.fpToIEEEBV(v))
            if z3.is_bool(v):
                return v if ty.w == 1 else simp(bv(v, ty.w))
            if z3.is_bv(v):
                if ty.w == 1: return simp(z3.Extract(0, 0, v) == 1)
                if v.size() == ty.w: return v
                if v.size() > ty.w: return simp(z3.Extract(ty.w - 1, 0, v))
                return simp(z3.ZeroExt(ty.w - v.size(), v))
            return v
        if k == 'ptr':
            if isinstance(v, Ptr): return v
            if isinstance(v, PInt): return v.p
            if is_c(v): return NULL if v == 0 else Opq(bv(v, 64))
            if z3.is_bv(v): return Opq(v)
            return v
        if k in ('float', 'double'):
            srt = F32 if k == 'float' else F64
            if z3.is_fp(v): return v
            if is_c(v): v = z3.BitVecVal(v, 32 if k == 'float' else 64)
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV: return v.arg(0)
            return z3.fpBVToFP(v, srt)
        return v

    def load(self, st, p, ty):
        if ty.k == 'struct':
            return [self.load(st, self.padd(st, p, self.m.field_off(ty, i), []), e) for i, e in enumerate(ty.el)]
        if isinstance(p, MaybeP):
            self.trap(st, p.c, 'null-deref')
            p = p.p
        size = self.tsize(ty)
        if isinstance(p, Null) or isinstance(p, Opq) or isinstance(p, FnP):
            if isinstance(p, Opq):
                return self.load_opaque(st, p, ty)
            self.trap(st, False, 'null-deref')
            raise PathEnd()
        if isinstance(p, HP):
            return self.hload(st, p, ty, size)
        r = st.regs.get(p.r)
        if r is None:
            self.trap(st, False, 'use-after-free')
            raise PathEnd()
        if r.kind == 'seq': return self.seq_load(st, r, p, ty, size)
        return self.cell_load(st, r, p, ty, size)

    def load_opaque(self, st, p, ty):
        raise Undecided('load through opaque pointer %s' % p.t)

    def cell_load(self, st, r, p, ty, size):
        off = p.off
        if not is_c(off):
            return self.cell_load_sym(st, r, off, ty, size)
        c = r.cells.get(off)
        if c is not None and c[0] == size: return self.conv(c[1], ty)
        ob = self.obj_at(st, r, off, ty)
        if ob is not None: return ob
        if c is not None and c[0] > size:
            return self.conv(low(c[1], size * 8), ty)
        # contained in / overlapping other cells?
        for o2, (s2, v2) in r.cells.items():
            if o2 <= off and off + size <= o2 + s2:
                if z3.is_bv(v2) or is_c(v2):
                    v = bv(v2, s2 * 8)
                    lo = (off - o2) * 8
                    return self.conv(simp(z3.Extract(lo + size * 8 - 1, lo, v)), ty)
            if o2 < off + size and off < o2 + s2:
                # byte assembly
                if size > 1 and ty.k in ('int', 'float', 'double'):
                    bs = [bv(self.cell_load(st, r, RP(p.r, 0, off + i), INT(8), 1), 8) for i in range(size)]
                    return self.conv(simp(z3.Concat(*reversed(bs))), ty)
        if r.lazy is None:
            v = self.undef(ty)
        else:
            v = r.lazy(self, st, r, off, ty)
        r2 = st.wr(r.id)
        r2.cells[off] = (size, v)
        return self.conv(v, ty)

    def cell_load_sym(self, st, r, off, ty, size):
        """symbolic offset into a cell region (constant tables, char arrays)"""
        keys = sorted(o for o, (s, v) in r.cells.items() if s == size)
        if not keys: raise Undecided('symbolic offset into %s' % r.name)
        self.trap(st, z3.Or([off == k for k in keys]), 'out-of-bounds')
        vals = [(k, r.cells[k][1]) for k in keys]
        if any(isinstance(v, Ptr) for _, v in vals):
            raise NeedFork([(off == k, ('cell', k)) for k in keys])
        res = None
        for k, v in vals:
            v = self.conv(v, ty)
            if is_c(v): v = z3.BitVecVal(v, ty.w)
            res = v if res is None else z3.If(off == k, v, res)
        return res

    def obj_at(self, st, r, off, ty):
        """raw field access of an abstract object (vector begin/end pointers)"""
        for o, ob in r.objs.items():
            f = getattr(ob, 'raw', None)
            if f and o <= off < o + ob.size:
                v = f(self, st, off - o, ty)
                if v is not None: return v
        return None

    def seq_bounds(self, st, r, p, size, what):
        if r.meta and r.meta.get('nobounds'): return
        es = r.es
        if p.off + size > es and es != 1:
            raise Undecided('straddling access in %s' % r.name)
        if is_c(p.idx) and is_c(r.n):
            ok = 0 <= p.idx and p.idx + (size if es == 1 else 1) <= r.n
            self.trap(st, ok, what)
            return
        n = bv(r.n, 64)
        i = bv(p.idx, 64)
        if es == 1:
            # 0 <= i and i + size <= n
            self.trap(st, z3.And(z3.ULT(i, n), z3.ULE(bv(size, 64), n - i)), what)
        else:
            self.trap(st, z3.ULT(i, n), what)

    def seq_load(self, st, r, p, ty, size):
        self.seq_bounds(st, r, p, size, 'out-of-bounds read of %s' % r.name)
        self.inst(st, p.idx)
        if r.es == 1 and size > 1:
            f = self.seq_field(st, r, 0, 1, INT(8))
            bs = [bv(f.read(simp(bv(p.idx, 64) + i)), 8) for i in range(size)]
            return self.conv(simp(z3.Concat(*reversed(bs))), ty)
        f = self.seq_field(st, r, p.off, size, ty)
        v = f.read(p.idx)
        if 'wrap' in r.meta and ty.k == 'ptr' and not isinstance(v, Ptr):
            return r.meta['wrap'](self, st, v, p)
        if z3.is_expr(v): v = simp(v)
        return self.conv(v, ty)

    def seq_field(self, st, r, off, size, ty):
        f = r.f.get((off, size))
        if f is None:
            if r.lazy is None: raise Undecided('untyped sequence field %s+%d:%d' % (r.name, off, size))
            f = r.lazy(self, st, r, off, size, ty)
            st.wr(r.id).f[off, size] = f
        return f

    def store(self, st, p, ty, v):
        if ty.k == 'struct':
            for i, e in enumerate(ty.el):
                self.store(st, self.padd(st, p, self.m.field_off(ty, i), []), e, v[i])
            return
        if isinstance(p, MaybeP):
            self.trap(st, p.c, 'null-deref')
            p = p.p
        size = self.tsize(ty)
        if isinstance(p, (Null, Opq, FnP)):
            if isinstance(p, Opq): raise Undecided('store through opaque pointer')
            self.trap(st, False, 'null-deref')
            raise PathEnd()
        if isinstance(p, HP): return self.hstore(st, p, ty, size, v)
        r = st.regs.get(p.r)
        if r is None:
            self.trap(st, False, 'use-after-free')
            raise PathEnd()
        if r.name.startswith('.str') : raise Undecided('store to constant')
        if r.kind == 'seq':
            self.seq_bounds(st, r, p, size, 'out-of-bounds write of %s' % r.name)
            r = st.wr(r.id)
            if r.es == 1 and size > 1:
                f = self.seq_field(st, r, 0, 1, INT(8))
                vv = bv(v, size * 8) if not z3.is_fp(v) else z3.fpToIEEEBV(v)
                for i in range(size):
                    f = f.write(simp(bv(p.idx, 64) + i), simp_k(z3.Extract(i * 8 + 7, i * 8, vv)))
                st.wr(r.id).f[0, 1] = f
                return
            f = self.seq_field(st, st.regs[r.id], p.off, size, ty)
            if isinstance(v, Ptr) and 'unwrap' in r.meta: v = r.meta['unwrap'](self, st, v)
            if is_c(v) and ty.k == 'int': v = z3.BitVecVal(v, 8 if ty.w == 1 else ty.w)
            elif z3.is_bool(v) if z3.is_expr(v) else False: v = bv(v, 8)
            st.wr(r.id).f[p.off, size] = f.write(p.idx, v)
            return
        if not is_c(p.off):
            raise Undecided('symbolic-offset store into %s' % r.name)
        r = st.wr(r.id)
        off = p.off
        for o2 in [o for o, (s2, _) in r.cells.items() if o < off + size and off < o + s2 and (o != off or s2 != size)]:
            s2, v2 = r.cells.pop(o2)
            if (z3.is_bv(v2) or is_c(v2)):
                vv = bv(v2, s2 * 8)
                for i in range(s2):
                    if not (off <= o2 + i < off + size):
                        r.cells[o2 + i] = (1, simp(z3.Extract(i * 8 + 7, i * 8, vv)))
        r.cells[off] = (size, v)

    # ----------------------------------------------------------- gc heap
    def hload(self, st, p, ty, size):
        nz = base_eq(p.b, z3.BitVecVal(0, 64))
        if nz is True:
            self.trap(st, False, 'null-deref')
            raise PathEnd()
        if nz is not False: self.trap(st, z3.Not(nz), 'null-deref')
        H = st.heap
        H['touch'](self, st, p.b)
        if is_c(p.idx) and p.idx == 0 and p.off < 8:
            if p.off == 0 and size == 4: return self.conv(simp(H['v'].read(p.b)), ty)
            if p.off == 4 and size == 4: return self.conv(simp(H['t'].read(p.b)), ty)
            raise Undecided('header access')
        byte = self.hbyte(p)
        bs = H['size'].read(p.b)
        self.trap(st, z3.And(z3.UGE(byte, 8), z3.ULE(byte, bv(bs, 64) - size), z3.UGE(bv(bs, 64), bv(size + 8, 64))),
                  'out-of-bounds heap read')
        self.inst(st, self.hidx(p, size))
        if size == 1: return self.conv(simp(H['p8'].read(p.b, self.hidx(p, 1))), ty)
        if size == 8 and ty.k == 'ptr':
            t = H['p64'].read(p.b, self.hidx(p, 8))
            t = z3.simplify(t)
            H['ptr'](self, st, t)
            return HP(t)
        raise Undecided('heap payload access of size %d' % size)

    def hbyte(self, p):
        return bv(p.off, 64) + bv(p.idx, 64) * p.sc

    def hidx(self, p, size):
        if p.sc == size and (p.off - 8) % size == 0:
            return simp(bv(p.idx, 64) + (p.off - 8) // size)
        if is_c(p.idx):
            b = p.off - 8 + p.idx * p.sc
            if b % size == 0: return b // size
            raise Undecided('misaligned heap access')
        if size == 1: return simp(self.hbyte(p) - 8)
        if p.sc % size == 0 and (p.off - 8) % size == 0:
            return simp(bv(p.idx, 64) * (p.sc // size) + (p.off - 8) // size)
        if p.sc == 1:
            # idx = 8*j syntactically?
            j = z3.simplify(z3.LShR(bv(p.idx, 64), 3)) if size == 8 else None
            if size == 8 and (p.off - 8) % 8 == 0 and z3.is_true(z3.simplify(j * 8 == p.idx)): return simp(j + (p.off - 8) // 8)
        raise Undecided('heap access scale')

    def hstore(self, st, p, ty, size, v):
        nz = base_eq(p.b, z3.BitVecVal(0, 64))
        if nz is True:
            self.trap(st, False, 'null-deref')
            raise PathEnd()
        if nz is not False: self.trap(st, z3.Not(nz), 'null-deref')
        H = st.heap
        H['touch'](self, st, p.b)
        if is_c(p.idx) and p.idx == 0 and p.off < 8:
            if p.off in (0, 4) and size == 4:
                if z3.is_fp(v) if z3.is_expr(v) else False: v = z3.fpToIEEEBV(v)
                k = 'v' if p.off == 0 else 't'
                H[k] = H[k].write(p.b, 0, bv(v, 32))
                return
            raise Undecided('header store')
        byte = self.hbyte(p)
        bs = H['size'].read(p.b)
        self.trap(st, z3.And(z3.UGE(byte, 8), z3.ULE(byte, bv(bs, 64) - size), z3.UGE(bv(bs, 64), bv(size + 8, 64))),
                  'out-of-bounds heap write')
        if size == 1:
            H['p8'] = H['p8'].write(p.b, self.hidx(p, 1), bv(v, 8))
            return
        if size == 8 and ty.k == 'ptr':
            H['p64'] = H['p64'].write(p.b, self.hidx(p, 8), self.hbase(v))
            return
        raise Undecided('heap payload store of size %d' % size)

    def hbase(self, v):
        """value_t* -> BV64 base term"""
        if isinstance(v, Null): return z3.BitVecVal(0, 64)
        if isinstance(v, HP):
            if v.off == 0 and is_c(v.idx) and v.idx == 0: return v.b
        if isinstance(v, Opq): return v.t
        raise Undecided('interior or foreign pointer stored as value: %r' % v)

    # ------------------------------------------------------------- arith
    def binop(self, st, op, ty, a, b):
        if isinstance(a, PInt) or isinstance(b, PInt):
            return self.pint_op(st, op, ty, a, b)
        if ty.k in ('float', 'double'):
            if getattr(self, 'fp_uf', False) and op in ('fadd', 'fmul', 'fdiv', 'fsub') and a.sort() == z3.Float64():
                return z3.Function(op, z3.Float64(), z3.Float64(), z3.Float64())(a, b)
            if op == 'fadd': return z3.fpAdd(RNE, a, b)
            if op == 'fsub': return z3.fpSub(RNE, a, b)
            if op == 'fmul': return z3.fpMul(RNE, a, b)
            if op == 'fdiv': return z3.fpDiv(RNE, a, b)
            raise Unsupported(op)
        w = ty.w
        if w == 1:
            A, B = tobool(a), tobool(b)
            if op == 'and': return simp(z3.And(A, B))
            if op == 'or': return simp(z3.Or(A, B))
            if op == 'xor': return simp(z3.Xor(A, B))
            raise Unsupported('i1 ' + op)
        if op in ('sdiv', 'srem'):
            self.trap(st, bv(b, w) != 0, 'division by zero (host trap)')
            self.trap(st, z3.Not(z3.And(bv(a, w) == (1 << (w - 1)), bv(b, w) == MASK[w])), 'signed division overflow (host trap)')
        if op in ('udiv', 'urem'):
            self.trap(st, bv(b, w) != 0, 'division by zero (host trap)')
        if is_c(a) and is_c(b):
            m = MASK[w]
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & m if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
        A, B = bv(a, w), bv(b, w)
        if op == 'add': r = A + B
        elif op == 'sub': r = A - B
        elif op == 'mul': r = A * B
        elif op == 'sdiv': r = A / B
        elif op == 'srem': r = z3.SRem(A, B)
        elif op == 'udiv': r = z3.UDiv(A, B)
        elif op == 'urem': r = z3.URem(A, B)
        elif op == 'and': r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op == 'shl': r = A << B
        elif op == 'lshr': r = z3.LShR(A, B)
        elif op == 'ashr': r = A >> B
        else: raise Unsupported(op)
        return simp(r)

    def pint_op(self, st, op, ty, a, b):
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            x, y = a.p, b.p
            if isinstance(x, Null) and isinstance(y, Null): return 0
            if isinstance(x, RP) and isinstance(y, RP) and x.r == y.r:
                es = st.regs[x.r].es or 1
                if st.regs[x.r].kind == 'cells': es = 1
                d = (bv(x.idx, 64) - bv(y.idx, 64)) * es + bv(x.off, 64) - bv(y.off, 64)
                return simp(d)
        raise Undecided('pointer integer arithmetic')

    def ptr_eq(self, st, a, b):
        if isinstance(a, MaybeP) or isinstance(b, MaybeP):
            if isinstance(b, MaybeP) and not isinstance(a, MaybeP): a, b = b, a
            if isinstance(b, Null): return z3.Not(a.c)
            if isinstance(b, MaybeP):
                return z3.Or(z3.And(z3.Not(a.c), z3.Not(b.c)), z3.And(a.c, b.c, tobool(self.ptr_eq(st, a.p, b.p))))
            return z3.And(a.c, tobool(self.ptr_eq(st, a.p, b)))
        if isinstance(a, Null) and isinstance(b, Null): return True
        if isinstance(a, Null): a, b = b, a
        if isinstance(b, Null):
            if isinstance(a, HP):
                if a.off == 0 and is_c(a.idx) and a.idx == 0:
                    e = base_eq(a.b, z3.BitVecVal(0, 64))
                    if is_fresh_base(a.b): return False
                    return e
                return False
            if isinstance(a, HostFn): return a.t == 0
            if isinstance(a, Opq): return a.t == 0
            return False
        if isinstance(a, HP) and isinstance(b, HP):
            eb = base_eq(a.b, b.b)
            if eb is False: return False
            eo = lin_eq(simp(self.hbyte(a)), simp(self.hbyte(b)))
            return z3.And(tobool(eb) if isinstance(eb, bool) else eb, tobool(eo) if isinstance(eo, bool) else eo)
        if isinstance(a, RP) and isinstance(b, RP):
            if a.r != b.r:
                ta, tb = [(st.regs[x.r].meta or {}).get('term') if x.r in st.regs else None for x in (a, b)]
                if ta is not None and tb is not None and is_c(a.off) and is_c(b.off) and a.off == b.off: return ta == tb
                return False
            e = lin_eq(a.idx, b.idx)
            if is_c(a.off) and is_c(b.off):
                if a.off != b.off: return False
                return e
            return z3.And(tobool(e) if isinstance(e, bool) else e, bv(a.off, 64) == bv(b.off, 64))
        if isinstance(a, FnP) and isinstance(b, FnP): return a.name == b.name
        if isinstance(a, Opq) and isinstance(b, Opq): return a.t == b.t
        if isinstance(a, HostFn) and isinstance(b, HostFn): return a.t == b.t
        if isinstance(a, Opq): a, b = b, a
        if isinstance(a, HP) and isinstance(b, Opq): return self.hbase(a) == b.t
        if isinstance(a, (RP, FnP)) and isinstance(b, (HP, Opq)): return False
        if isinstance(b, (RP, FnP)) and isinstance(a, (HP, Opq)): return False
        if isinstance(a, (RP, FnP)) and isinstance(b, (RP, FnP)): return False
        raise Undecided('pointer compare %r %r' % (a, b))

    def icmp(self, st, pred, ty, a, b):
        if ty.k == 'ptr':
            if pred in ('eq', 'ne'):
                e = self.ptr_eq(st, a, b)
                if isinstance(e, bool): return int(e == (pred == 'eq'))
                return simp(e if pred == 'eq' else z3.Not(e))
            if isinstance(a, RP) and isinstance(b, RP) and a.r == b.r:
                r = st.regs[a.r]
                A = bv(a.idx, 64) * (r.es or 1) + bv(a.off, 64)
                B = bv(b.idx, 64) * (r.es or 1) + bv(b.off, 64)
                return self.icmp(st, pred, INT(64), simp(A), simp(B))
            if isinstance(a, Opq) and isinstance(b, Opq): return self.icmp(st, pred, INT(64), a.t, b.t)
            h = getattr(self, 'ptr_order', None)
            if h: return h(st, pred, a, b)
            raise Undecided('pointer order compare %r %r' % (a, b))
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt): return self.icmp(st, pred, PTR, a.p, b.p)
            if isinstance(a, PInt) and is_c(b) and b == 0: return self.icmp(st, pred, PTR, a.p, NULL)
            raise Undecided('ptrint compare')
        w = ty.w
        if w == 1:
            A, B = tobool(a), tobool(b)
            if pred == 'eq': return simp(A == B)
            if pred == 'ne': return simp(z3.Xor(A, B))
            raise Unsupported('i1 cmp ' + pred)
        if is_c(a) and is_c(b):
            sa, sb = sgn(a, w), sgn(b, w)
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                        'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred])
        A, B = bv(a, w), bv(b, w)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
             'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()
        return simp(r)

    def fcmp(self, pred, a, b):
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': lambda: z3.fpEQ(a, b), 'ne': lambda: z3.And(z3.Not(un), z3.fpNEQ(a, b)), 'lt': lambda: z3.fpLT(a, b),
                'le': lambda: z3.fpLEQ(a, b), 'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b),
                'rd': lambda: z3.Not(un), 'no': lambda: un}
        if pred == 'ord': return simp(z3.Not(un))
        if pred == 'uno': return simp(un)
        if pred == 'une': return simp(z3.Not(z3.fpEQ(a, b)))
        if pred[0] == 'o': return simp(base[pred[1:]]())
        if pred[0] == 'u': return simp(z3.Or(un, base[pred[1:]]()))
        raise Unsupported('fcmp ' + pred)

    def cast(self, st, op, fty, v, tty):
        if op == 'trunc':
            if isinstance(v, PInt): raise Undecided('trunc of pointer')
            if is_c(v): return v & MASK[tty.w]
            if tty.w == 1: return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(tty.w - 1, 0, v))
        if op == 'zext':
            if fty.w == 1: return v if is_c(v) else simp(bv(v, tty.w))
            if is_c(v): return v
            return simp(z3.ZeroExt(tty.w - fty.w, v))
        if op == 'sext':
            if fty.w == 1:
                if is_c(v): return MASK[tty.w] if v else 0
                return simp(z3.If(v, z3.BitVecVal(-1, tty.w), z3.BitVecVal(0, tty.w)))
            if is_c(v): return sgn(v, fty.w) & MASK[tty.w]
            return simp(z3.SignExt(tty.w - fty.w, v))
        if op == 'sitofp':
            return z3.fpSignedToFP(RNE, bv(v, fty.w), F32 if tty.k == 'float' else F64)
        if op == 'uitofp':
            return z3.fpUnsignedToFP(RNE, bv(v, fty.w), F32 if tty.k == 'float' else F64)
        if op == 'fptosi':
            return simp(z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(tty.w)))
        if op == 'fptoui':
            return simp(z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(tty.w)))
        if op in ('fpext', 'fptrunc'):
            return z3.fpFPToFP(RNE, v, F32 if tty.k == 'float' else F64)
        if op == 'ptrtoint':
            if isinstance(v, Opq): return v.t
            if isinstance(v, Null): return 0
            return PInt(v)
        if op == 'inttoptr':
            if isinstance(v, PInt): return v.p
            return self.conv(v, PTR)
        if op == 'bitcast':
            return self.conv(v, tty)
        raise Unsupported('cast ' + op)

    # ---------------------------------------------------------- execution
    def start(self, st, fname, args):
        fn = self.m.fn(fname)
        fr = Frame(fn)
        for (ty, nm), a in zip(fn.params, args): fr.env[nm] = a
        st.frames.append(fr)
        self.inlined[fname] = self.inlined.get(fname, 0) + 1
        return st

    def explore(self, st):
        """run st to all its ends; calls self.on_end(st, kind, value)"""
        self.solver.push()
        try:
            self.run(st)
        finally:
            self.solver.pop()

    def forks(self, st, alts):
        """alts: list of (cond, callback(st)) ; explore each feasible one recursively"""
        live = []
        for c, cb in alts:
            if isinstance(c, bool): c = z3.BoolVal(c)
            c = z3.simplify(c)
            if z3.is_false(c): continue
            live.append((c, cb))
        feas = [(c, cb) for c, cb in live if z3.is_true(c) or self.feasible(c)]
        if len(feas) == 1 and len(live) >= 1:
            c, cb = feas[0]
            self.assume(st, c)
            return (st, cb)
        for c, cb in feas:
            s2 = st.fork()
            self.solver.push()
            try:
                self.assume(s2, c)
                try:
                    s3 = cb(s2)
                except PathEnd:
                    s3 = None
                    self.npaths += 1
                if s3 is not None: self.run(s3)
            finally:
                self.solver.pop()
        return None

    def run(self, st):
        while True:
            try:
                nxt = self.step(st)
            except PathEnd:
                self.npaths += 1
                return
            if nxt is None: return
            st = nxt

    def goto(self, st, target):
        """transfer in top frame; returns st or None if collected"""
        fr = st.frames[-1]
        if self.stop_hook is not None:
            r = self.stop_hook(st, fr, target)
            if r: return None
        return self.enter_block(st, target)

    def enter_block(self, st, target, skip_loop=False):
        fr = st.frames[-1]
        loops = fr.fn.loops()
        src = fr.blk
        if target in loops and not skip_loop:
            body = loops[target]
            inside = src in body
            key = (fr.fn.name, target)
            if not inside:
                fr.visits[target] = 0
                if key in self.summarize or getattr(self, 'sum_all', False) and key not in self.bounded_loops:
                    return self.summarize_loop(st, target, body, key)
            else:
                fr.visits[target] = fr.visits.get(target, 0) + 1
                n = fr.visits[target]
                if key in self.bounded_loops:
                    if n > self.bounded_loops[key]:
                        self.cut += 1
                        raise PathEnd()
                elif n > self.UNROLL or (n > self.SYM_UNROLL and fr.visits.get(target + '/sym', 0) >= self.SYM_UNROLL):
                    raise NeedSummary(key)
        blk = fr.fn.blocks[target]
        if blk.phis:
            vals = []
            for ph in blk.phis:
                ty, inc = ph.a
                for v, b in inc:
                    if b == src:
                        vals.append((ph.res, self.val(st, fr, v, ty)))
                        break
                else:
                    raise Unsupported('phi without incoming %s' % src)
            for n, v in vals: fr.env[n] = v
        fr.prev, fr.blk, fr.ip = src, target, 0
        return st

    def mark_sym(self, fr):
        """a symbolic two-way branch was taken inside loops: remember for unroll heuristics"""
        for h, body in fr.fn.loops().items():
            if fr.blk in body: fr.visits[h + '/sym'] = fr.visits.get(h + '/sym', 0) + 1

    def step(self, st):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.blk].ins[fr.ip]
        self.steps += 1
        if self.steps & 1023 == 0:
            if self.steps > self.max_steps: raise Undecided('step budget exhausted')
            if self.deadline and time.time() > self.deadline: raise Undecided('time budget exhausted')
        op = ins.op
        env = fr.env
        a = ins.a
        if op == 'bin':
            env[ins.res] = self.binop(st, a[0], a[1], self.val(st, fr, a[2], a[1]), self.val(st, fr, a[3], a[1]))
        elif op == 'icmp':
            env[ins.res] = self.icmp(st, a[0], a[1], self.val(st, fr, a[2], a[1]), self.val(st, fr, a[3], a[1]))
        elif op == 'load':
            p = self.val(st, fr, a[1], PTR)
            try:
                env[ins.res] = self.load(st, p, a[0])
            except NeedFork as nf:
                def mk(k):
                    def cb(s):
                        f = s.frames[-1]
                        f.env[ins.res] = self.conv(s.regs[p.r].cells[k[1]][1], a[0])
                        f.ip += 1
                        return s
                    return cb
                r = self.forks(st, [(c, mk(k)) for c, k in nf.alts])
                return r[1](r[0]) if r else None
        elif op == 'store':
            self.store(st, self.val(st, fr, a[2], PTR), a[0], self.val(st, fr, a[1], a[0]))
        elif op == 'gep':
            env[ins.res] = self.gep(st, a[0], self.val(st, fr, a[1], PTR), [(t, self.val(st, fr, v, t)) for t, v in a[2]])
        elif op == 'cast':
            env[ins.res] = self.cast(st, a[0], a[1], self.val(st, fr, a[2], a[1]), a[3])
        elif op == 'jmp':
            return self.goto(st, a[0])
        elif op == 'br':
            c = self.val(st, fr, a[0], INT(1))
            if is_c(c): return self.goto(st, a[1] if c else a[2])
            c = tobool(c)
            self.mark_sym(fr)
            r = self.forks(st, [(c, lambda s: self.goto(s, a[1])), (z3.Not(c), lambda s: self.goto(s, a[2]))])
            return r[1](r[0]) if r else None
        elif op == 'switch':
            v = self.val(st, fr, a[1], a[0])
            if is_c(v):
                for cv, lab in a[3]:
                    if cv == v: return self.goto(st, lab)
                return self.goto(st, a[2])
            self.mark_sym(fr)
            by = {}
            for cv, lab in a[3]: by.setdefault(lab, []).append(v == cv)
            alts = []
            for lab, cs in by.items():
                if lab == a[2]: continue
                alts.append((z3.Or(cs), (lambda lab: lambda s: self.goto(s, lab))(lab)))
            rest = [v != cv for cv, lab in a[3] if lab != a[2]]
            alts.append((z3.And(rest) if rest else z3.BoolVal(True), lambda s: self.goto(s, a[2])))
            r = self.forks(st, alts)
            return r[1](r[0]) if r else None
        elif op == 'call':
            return self.do_call(st, fr, ins)
        elif op == 'ret':
            v = None if a[1] is None else self.val(st, fr, a[1], a[0])
            return self.do_ret(st, v)
        elif op == 'alloca':
            ty, cnt = a
            if ty.k == 'arr' and ty.el.k == 'int' and ty.el.w == 8:
                r = self.new_seq(st, 'alloca.' + ins.res, 1, ty.n)
                r.f[0, 1] = Fun(self.uf_bytes('undef'))
            else:
                r = self.new_reg(st, 'alloca.' + ins.res)
            fr.allocas = fr.allocas + [r.id]
            env[ins.res] = RP(r.id)
        elif op == 'select':
            ty, c, x, y = a
            cv = self.val(st, fr, c, INT(1))
            xv, yv = self.val(st, fr, x, ty), self.val(st, fr, y, ty)
            if is_c(cv): env[ins.res] = xv if cv else yv
            elif ty.k == 'int' and not isinstance(xv, PInt) and not isinstance(yv, PInt):
                if ty.w == 1: env[ins.res] = simp(z3.If(cv, tobool(xv), tobool(yv)))
                else: env[ins.res] = simp(z3.If(cv, bv(xv, ty.w), bv(yv, ty.w)))
            elif ty.k in ('float', 'double'): env[ins.res] = z3.If(cv, xv, yv)
            else:
                def mk(v):
                    def cb(s):
                        s.frames[-1].env[ins.res] = v
                        s.frames[-1].ip += 1
                        return s
                    return cb
                r = self.forks(st, [(cv, mk(xv)), (z3.Not(cv), mk(yv))])
                return r[1](r[0]) if r else None
        elif op == 'fcmp':
            env[ins.res] = self.fcmp(a[0], self.val(st, fr, a[2], a[1]), self.val(st, fr, a[3], a[1]))
        elif op == 'fneg':
            env[ins.res] = z3.fpNeg(self.val(st, fr, a[1], a[0]))
        elif op == 'extractvalue':
            v = self.val(st, fr, a[1], a[0])
            for i in a[2]: v = v[i]
            env[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(st, fr, a[1], a[0])
            ev = self.val(st, fr, a[3], a[2])
            env[ins.res] = insv(v, a[4], ev)
        elif op == 'unreachable':
            raise PathEnd()
        elif op == 'landingpad':
            env[ins.res] = [Opq(z3.BitVecVal(0x7777, 64)), self.selector(st, ins)]
        elif op == 'resume':
            return self.unwind(st)
        elif op == 'freeze':
            env[ins.res] = self.val(st, fr, a[1], a[0])
        else:
            raise Unsupported(op)
        fr.ip += 1
        return st

    def selector(self, st, ins):
        t = st.exc.ty if st.exc else None
        for m in re.finditer(r'catch ptr (\S+)', ins.txt):
            g = m.group(1).rstrip(',')
            if g == 'null': return 1
            if t and (g.lstrip('@').strip('"') == t): return tid(g.lstrip('@').strip('"'))
        return 0

    def uf_bytes(self, name):
        self.nfresh += 1
        f = z3.Function('%s!%d' % (name, self.nfresh), z3.BitVecSort(64), z3.BitVecSort(8))
        return lambda i: f(bv(i, 64))

    def uf(self, name, *ws):
        self.nfresh += 1
        return z3.Function('%s!%d' % (name, self.nfresh), *[z3.BitVecSort(w) for w in ws])

    def do_ret(self, st, v):
        fr = st.frames.pop()
        for rid in fr.allocas: st.regs.pop(rid, None)
        if not st.frames or (fr.tag == 'top'):
            self.npaths += 1
            self.on_end(st, 'ret', v)
            return None
        c = st.frames[-1]
        ins = c.fn.blocks[c.blk].ins[c.ip]
        if ins.res is not None: c.env[ins.res] = v
        if fr.tag is not None and callable(fr.tag):
            fr.tag(st, v)
        if ins.a[3]: return self.goto(st, ins.a[3])
        c.ip += 1
        return st

    def unwind(self, st):
        while st.frames:
            fr = st.frames.pop()
            for rid in fr.allocas: st.regs.pop(rid, None)
            if not st.frames or fr.tag == 'top': break
            c = st.frames[-1]
            ins = c.fn.blocks[c.blk].ins[c.ip]
            if ins.a[4]: return self.goto(st, ins.a[4])
        self.npaths += 1
        self.on_end(st, 'throw', st.exc)
        return None

    def throw(self, st, exc):
        """raise from the current call instruction of the top frame"""
        st.exc = exc
        c = st.frames[-1]
        ins = c.fn.blocks[c.blk].ins[c.ip]
        if ins.op == 'call' and ins.a[4]: return self.goto(st, ins.a[4])
        return self.unwind(st)

    def finish_call(self, st, v):
        """complete a modelled call with result v"""
        c = st.frames[-1]
        ins = c.fn.blocks[c.blk].ins[c.ip]
        if isinstance(v, Throw): return self.throw(st, v)
        if ins.res is not None: c.env[ins.res] = v
        if ins.a[3]: return self.goto(st, ins.a[3])
        c.ip += 1
        return st

    def do_call(self, st, fr, ins):
        rty, callee, args, nl, ul = ins.a
        cal = self.val(st, fr, callee, PTR)
        av = [None if v is None else self.val(st, fr, v, t) for t, v in args]
        return self.call_value(st, cal, av, ins)

    def call_value(self, st, cal, av, ins):
        if isinstance(cal, MaybeP):
            self.trap(st, cal.c, 'call through null')
            cal = cal.p
        if isinstance(cal, HostFn):
            self.trap(st, cal.t != 0, 'call through null function pointer')
            r = self.host_call(st, cal, av, ins)
            return self.deliver(st, r)
        if not isinstance(cal, FnP): raise Undecided('indirect call through %r' % cal)
        name = self.m.aliases.get(cal.name, cal.name)
        mdl = self.find_model(name)
        if mdl is not None:
            r = mdl(self, st, av, ins)
            if r is not DECLINE: return self.deliver(st, r)
        if name not in self.m.fn_text:
            raise Undecided('external function %s' % self.m.dem(name))
        if len(st.frames) > 60: raise Undecided('call depth')
        if getattr(self, 'pure', None) is not None and self.pure.search(self.m.dem(name)):
            v = self.pure_value(st, name, av)
            if v is not None:
                self.inlined[name] = self.inlined.get(name, 0) + 1
                return self.deliver(st, v)
        fn = self.m.fn(name)
        nf = Frame(fn)
        for (ty, nm), v in zip(fn.params, av): nf.env[nm] = v
        st.frames.append(nf)
        self.inlined[name] = self.inlined.get(name, 0) + 1
        return st

    def pure_value(self, st, name, av):
        """value of an effect-free function of integers and of fields its arguments point to: its body executed once for all
        arguments, the paths merged"""
        memo = self.m.__dict__.setdefault('pure_memo', {})
        if name not in memo:
            fn = self.m.fn(name)
            memo[name] = None
            xs = [RP('pure.p%d' % i) if ty.k == 'ptr' else z3.BitVec('pure.%d' % i, ty.w) if ty.k == 'int' else None for i, (ty, nm) in enumerate(fn.params)]
            if all(x is not None for x in xs):
                e, rd = Engine(self.m, self.models), {}
                e.contracts, e.pure = self.contracts, self.pure
                real = e.load

                def load(s, p, ty):
                    if isinstance(p, RP) and p.r.startswith('pure.p') and is_c(p.idx) and p.idx == 0 and is_c(p.off) and ty.k == 'int':
                        k = (int(p.r[6:]), int(p.off), ty.w)
                        if k not in rd: rd[k] = (z3.BitVec('pure.%d.%d' % k[:2] + '.%d' % ty.w, ty.w), ty)
                        return rd[k][0]
                    return real(s, p, ty)
                e.load = load
                out = []
                e.on_end = lambda s, k, v: out.append((k, v, list(s.pc), s))
                try:
                    s0 = State()
                    for x in xs:
                        if isinstance(x, RP): s0.regs[x.r] = Reg(x.r, x.r, 'cells')
                    e.explore(e.start(s0, name, xs))
                    ok = not e.obs and out and all(k == 'ret' and isinstance(v, (int, bool, z3.ExprRef)) and not s.log for k, v, c, s in out)
                except Exception: ok = False
                if ok:
                    rt = [v for k, v, c, s in out if z3.is_expr(v)]
                    w = rt[0].size() if rt and z3.is_bv(rt[0]) else int(re.search(r'\bi(\d+) @', self.m.fn_sig[name]).group(1))
                    v = None
                    for k, x, c, s in reversed(out):
                        x = z3.If(tobool(x), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if w == 1 else bv(x, w)
                        v = x if v is None else z3.If(z3.And(c), x, v)
                    memo[name] = (xs, z3.simplify(v), rd)
        m = memo[name]
        if m is None or any(a is None or isinstance(x, RP) != isinstance(a, Ptr) or isinstance(x, RP) and not isinstance(a, RP) for x, a in zip(m[0], av)): return None
        sub = [(x, bv(a, x.size())) for x, a in zip(m[0], av) if not isinstance(x, RP)]
        for (i, off, w), (x, ty) in m[2].items(): sub.append((x, bv(self.load(st, RP(av[i].r, av[i].idx, simp(av[i].off + off) if not is_c(av[i].off) else av[i].off + off), ty), w)))
        r = z3.substitute(m[1], *sub)
        return simp(r)

    def deliver(self, st, r):
        if isinstance(r, list) and r and isinstance(r[0], Alt):
            def mk(a):
                return lambda s: self.finish_call(s, a.fn(s))
            x = self.forks(st, [(a.cond, mk(a)) for a in r])
            return x[1](x[0]) if x else None
        if isinstance(r, Inline):
            fn = self.m.fn(r.name)
            nf = Frame(fn)
            for (ty, nm), v in zip(fn.params, r.args): nf.env[nm] = v
            nf.tag = r.tag
            st.frames.append(nf)
            self.inlined[r.name] = self.inlined.get(r.name, 0) + 1
            return st
        return self.finish_call(st, r)

    def host_call(self, st, cal, av, ins):
        raise Undecided('host call')

    def find_model(self, name):
        if name in self.model_cache: return self.model_cache[name]
        d = self.m.dem(name)
        res = None
        for lst in (self.contracts, self.models):
            for rx, f in lst:
                if rx.search(d):
                    res = f
                    break
            if res: break
        self.model_cache[name] = res
        if res is not None: self.used_models[d] = getattr(res, '__name__', '?')
        return res

    # ------------------------------------------------------- loop summary
    def summarize_loop(self, st, header, body, key):
        from .loops import summarize, cut, SummaryFail
        mode = getattr(self, 'cut_loops', False)
        try:
            if mode == 'both':
                ev = self.event_loops
                for kind in ((summarize, cut) if key not in ev else (cut,)):
                    try: return kind(self, st.fork(), header, body, key)
                    except SummaryFail as e:
                        if getattr(e, 'key', None): raise
                        if 'ghost events' in str(e): break
                        if kind is cut: raise
                ev.add(key)
                return cut(self, st, header, body, key)
            return (cut if mode else summarize)(self, st, header, body, key)
        except SummaryFail as e:
            if not getattr(e, 'key', None): e.key = key
            raise


class Inline:
    def __init__(self, name, args, tag=None): self.name, self.args, self.tag = name, args, tag


class NeedFork(Exception):
    def __init__(self, alts): self.alts = alts


class _Decline:
    pass


DECLINE = _Decline()


def tid(name):
    h = 0
    for c in name: h = (h * 31 + ord(c)) & 0x3fffffff
    return h + 2


def sgn(v, w):
    if v >= (1 << (w - 1)): return v - (1 << w)
    return v


def sext64(v, w):
    if is_c(v): return bv(sgn(v, w), 64)
    if w == 64: return v
    return z3.simplify(z3.SignExt(64 - w, v))


def low(v, w):
    if is_c(v): return v & MASK[w]
    if z3.is_bool(v): return bv(v, w)
    if z3.is_fp(v): v = z3.fpToIEEEBV(v)
    return simp(z3.Extract(w - 1, 0, v))


def simp_k(v):
    return z3.simplify(v)


def insv(v, idx, ev):
    v = list(v)
    if len(idx) == 1: v[idx[0]] = ev
    else: v[idx[0]] = insv(v[idx[0]], idx[1:], ev)
    return v


def const_bytes(data):
    cache = {}

    def f(i):
        if not is_c(i):
            i2 = simp(i)
            if not is_c(i2):
                res = z3.BitVecVal(data[0] if data else 0, 8)
                for k in range(len(data)): res = z3.If(i == k, z3.BitVecVal(data[k], 8), res)
                return res
            i = i2
        return z3.BitVecVal(data[i] if i < len(data) else 0, 8)
    return f
