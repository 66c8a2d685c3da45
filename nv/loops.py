"""Automatic inductive loop summaries.

A loop is described by an iteration counter k: every scalar the body changes
must be v0 + d*k, every array the body writes must be written at an index that
is affine (coefficient +-1) in k.  That closed form *is* the loop invariant; it
is checked to be inductive by executing the real body once from the symbolic
iteration k.  Exits are taken from iteration k under the facts "the loop
condition held at every j < k".  Anything else falls back to a bounded
unrolling that is reported as such.
"""
import z3
from .sx import *
from .sx import Ptr, Null, RP, HP, Fun, Fun2, Opq, lin_eq, simp, bv, is_c, tobool
from .ir import PTR, INT


class SummaryFail(Exception):
    pass


def psame(a, b):
    if a is b: return True
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return a == b
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b): return True
        try: return z3.simplify(a).eq(z3.simplify(b))
        except Exception: return False
    if isinstance(a, RP) and isinstance(b, RP):
        return a.r == b.r and lin_eq(a.idx, b.idx) is True and (lin_eq(a.off, b.off) is True)
    if isinstance(a, HP) and isinstance(b, HP):
        return a.b.eq(b.b) and a.off == b.off and a.sc == b.sc and lin_eq(a.idx, b.idx) is True
    if isinstance(a, Null) and isinstance(b, Null): return True
    if isinstance(a, FnP) and isinstance(b, FnP): return a.name == b.name
    if isinstance(a, Opq) and isinstance(b, Opq): return a.t.eq(b.t)
    if isinstance(a, MaybeP) and isinstance(b, MaybeP): return psame(a.c, b.c) and psame(a.p, b.p)
    return False


def fun_same(a, b):
    return a is b or (a.base is b.base and a.layers is b.layers) or (a.base is b.base and len(a.layers) == len(b.layers) and all(x is y for x, y in zip(a.layers, b.layers)))


def diff(eng, s1, s0, alloc_ok=False, events_ok=False, writes_ok=False):
    """locations of s0 whose value differs in s1"""
    out = set()
    for rid, r0 in s0.regs.items():
        r1 = s1.regs.get(rid)
        if r1 is r0: continue
        if r1 is None: raise SummaryFail('region freed in loop')
        if r0.kind == 'seq':
            if not psame(r0.n, r1.n): out.add(('seqn', rid))
            for k, f in r1.f.items():
                f0 = r0.f.get(k)
                if f0 is None:
                    if f.layers: out.add(('seqf', rid, k))
                elif not fun_same(f0, f): out.add(('seqf', rid, k))
        else:
            for o, c in r1.cells.items():
                c0 = r0.cells.get(o)
                if c0 is None:
                    d = r0.meta.get('det', {}).get(o) if r0.meta else None
                    if d is not None and d[0] == c[0] and psame(d[1], c[1]): continue
                    if r0.lazy is None: out.add(('local', rid, o))
                    else:
                        ty = INT(c[0] * 8)
                        out.add(('lazycell', rid, o, c[0]))
                elif c0[0] != c[0] or not psame(c0[1], c[1]): out.add(('cell', rid, o, c0[0]))
            for o, ob in r1.objs.items():
                ob0 = r0.objs.get(o)
                if ob0 is ob: continue
                if ob0 is None and r0.meta and 'det' in r0.meta and (hasattr(ob, 'seq') or z3.is_const(getattr(ob, 'sid', None) if getattr(ob, 'sid', None) is not None else 0)): continue
                raise SummaryFail('object changed in loop')
    if s0.heap is not None:
        for k in ('v', 't', 'size', 'p8', 'p64'):
            if s0.heap[k] is not s1.heap[k]: out.add(('heap', k))
    if not writes_ok:
        for rid, r1 in s1.regs.items():
            # a list element first touched inside the loop: writing it is an effect of the loop
            if rid in s0.regs or r1.lazy is None or not r1.meta or 'det' not in r1.meta: continue
            for o, c in r1.cells.items():
                d = r1.meta['det'].get(o)
                if d is None or d[0] != c[0] or not psame(d[1], c[1]): raise SummaryFail('%s: list element written in loop' % ('no hook' if events_ok else 'ghost events'))
    if len(s1.log) != len(s0.log) and not events_ok: raise SummaryFail('ghost events in loop')
    if not alloc_ok and len(s1.fresh) != len(s0.fresh): raise SummaryFail('allocation in loop')
    return out


def summarize(eng, st, header, body, key):
    fr = st.frames[-1]
    depth = len(st.frames)
    blk = fr.fn.blocks[header]
    src = fr.blk
    phis = []
    for ph in blk.phis:
        ty, inc = ph.a
        for v, b in inc:
            if b == src:
                phis.append((ph.res, ty, eng.val(st, fr, v, ty)))
                break
        else: raise SummaryFail('phi')

    def run_iter(s0, collect):
        res = []
        n0 = len(s0.pc)
        old_hook, old_end = eng.stop_hook, eng.on_end

        def hook(s, f, target):
            if len(s.frames) == depth:
                if target == header and f.blk in body:
                    pv = []
                    for ph in blk.phis:
                        ty, inc = ph.a
                        for v, b in inc:
                            if b == f.blk: pv.append(eng.val(s, f, v, ty))
                    res.append(('back', s.fork(), pv, s.pc[n0:], None))
                    return True
                if target not in body and f.blk in body:
                    res.append(('exit', s.fork(), None, s.pc[n0:], target))
                    return True
            elif len(s.frames) < depth:
                raise SummaryFail('unwinding out of loop')
            return False

        def bad_end(*a): raise SummaryFail('path ends inside loop')
        eng.stop_hook, eng.on_end = hook, bad_end
        if collect: eng.collect_only += 1
        eng.solver.push()
        try:
            for c in s0.pc[len(st.pc):]: eng.solver.add(c)
            s = s0.fork()
            f = s.frames[-1]
            f.prev, f.blk, f.ip = src, header, 0
            eng.run(s)
        finally:
            eng.solver.pop()
            eng.stop_hook, eng.on_end = old_hook, old_end
            if collect: eng.collect_only -= 1
        return res

    def mk_var(v, w, nm):
        if isinstance(v, RP):
            r = st.regs[v.r]
            if r.kind == 'cells': return RP(v.r, 0, eng.sym(nm, 64))
            return RP(v.r, eng.sym(nm, 64), v.off)
        if isinstance(v, HP): return HP(v.b, v.off, eng.sym(nm, 64), v.sc)
        if isinstance(v, (int,)) or z3.is_bv(v):
            return eng.sym(nm, w)
        if z3.is_bool(v): return eng.symb(nm)
        if isinstance(v, Null): return v
        raise SummaryFail('loop variable of kind %r' % (v,))

    def term(v):
        if isinstance(v, RP): return bv(v.idx, 64) if is_c(v.off) else bv(v.off, 64)
        if isinstance(v, HP): return bv(v.idx, 64)
        return v

    def widthof(ty): return ty.w if ty.k == 'int' else 64

    M = set()
    lazies = {}
    for rounds in range(8):
        sh = st.fork()
        fh = sh.frames[-1]
        hv = {}
        for nm, ty, v in phis:
            x = mk_var(v, widthof(ty), 'lv.' + nm)
            hv['phi', nm] = x
            fh.env[nm] = x
        base_vals = {}
        for loc in M:
            if loc[0] == 'cell':
                r = sh.wr(loc[1])
                v = r.cells[loc[2]][1]
                base_vals[loc] = v
                x = mk_var(v, loc[3] * 8, 'lc')
                hv[loc] = x
                r.cells[loc[2]] = (loc[3], x)
            elif loc[0] == 'local':
                r = sh.wr(loc[1])
                r.cells.pop(loc[2], None)
            elif loc[0] == 'seqn':
                r = sh.wr(loc[1])
                base_vals[loc] = r.n
                x = eng.sym('ln', 64)
                hv[loc] = x
                r.n = x
                eng_n = x
                sh.pc.append(z3.ULT(x, 1 << 31))
        backs = [x for x in run_iter(sh, True) if x[0] == 'back']
        new = set()
        for _, s1, pv, pc, _t in backs:
            for loc in diff(eng, s1, sh):
                if loc[0] == 'lazycell':
                    # materialise in the pre-state so that it is an ordinary cell next time
                    _, rid, o, sz = loc
                    v = st.regs[rid].lazy(eng, st, st.regs[rid], o, INT(sz * 8))
                    if not psame(eng.conv(v, INT(sz * 8)) if not isinstance(v, Ptr) else v, s1.regs[rid].cells[o][1]):
                        st.wr(rid).cells[o] = (sz, v)
                        new.add(('cell', rid, o, sz))
                    else:
                        st.wr(rid).cells[o] = (sz, v)
                elif loc not in M: new.add(loc)
        if not new: break
        M |= new
    else:
        raise SummaryFail('modified set did not stabilise')

    # deltas
    def deltas(backs):
        D = {}
        late = []
        for loc, x in hv.items():
            ds = []
            for _, s1, pv, pc, _t in backs:
                if loc[0] == 'phi':
                    nv = pv[[p[0] for p in phis].index(loc[1])]
                elif loc[0] == 'cell': nv = s1.regs[loc[1]].cells[loc[2]][1]
                else: nv = s1.regs[loc[1]].n
                if isinstance(x, Ptr):
                    if isinstance(x, Null):
                        if not isinstance(nv, Null): raise SummaryFail('null loop pointer')
                        ds.append(0)
                        continue
                    if type(nv) is not type(x): raise SummaryFail('pointer kind changes')
                    if isinstance(x, RP) and nv.r != x.r: raise SummaryFail('pointer region changes')
                    if isinstance(x, HP) and not nv.b.eq(x.b): raise SummaryFail('pointer base changes')
                    a, b = term(nv), term(x)
                else: a, b = nv, x
                if z3.is_bool(b):
                    if psame(a, b): ds.append(0)
                    else: raise SummaryFail('boolean loop variable')
                    continue
                w = b.size()
                d = z3.simplify(bv(a, w) - b)
                if not isinstance(d, z3.BitVecNumRef):
                    ds.append((bv(a, w), w))
                    continue
                ds.append(d.as_signed_long())
            if any(isinstance(d, tuple) for d in ds):
                late.append((loc, ds))
                continue
            if len(set(ds)) > 1: raise SummaryFail('path dependent step')
            D[loc] = ds[0] if ds else 0
        init = {('phi', nm): v for nm, ty, v in phis}
        init.update(base_vals)
        for loc, ds in late:
            # a location that trails another one: new value == other + c, and its start fits that closed form
            if not all(isinstance(d, tuple) for d in ds): raise SummaryFail('non-affine loop variable %s' % (loc,))
            for l2, d2 in list(D.items()):
                x2 = hv[l2]
                if not isinstance(x2, Ptr) and not z3.is_bv(x2): continue
                if isinstance(x2, Null): continue
                t2 = term(x2)
                if not z3.is_bv(t2) or t2.size() != ds[0][1]: continue
                cs = [z3.simplify(d[0] - t2) for d in ds]
                if not all(isinstance(c, z3.BitVecNumRef) and c.eq(cs[0]) for c in cs): continue
                w = ds[0][1]
                if z3.is_true(z3.simplify(bv(term(init[loc]), w) == bv(term(init[l2]), w) + cs[0] - d2)):
                    D[loc] = d2
                    break
            else: raise SummaryFail('non-affine loop variable %s' % (loc,))
        return D
    D = deltas(backs)
    k = eng.sym('iter', 64)
    n_before = eng.nfresh

    def at(v, d, w, kk):
        kt = kk if w == 64 else z3.Extract(w - 1, 0, kk)
        if isinstance(v, RP):
            if is_c(v.off) and st.regs[v.r].kind == 'seq': return RP(v.r, simp(bv(v.idx, 64) + kk * d), v.off)
            return RP(v.r, 0, simp(bv(v.off, 64) + kk * d))
        if isinstance(v, HP): return HP(v.b, v.off, simp(bv(v.idx, 64) + kk * d), v.sc)
        if isinstance(v, Null) or d == 0: return v
        return simp(bv(v, w) + kt * d)

    arr_locs = [l for l in M if l[0] in ('seqf', 'heap')]

    def build(arrays):
        sk = st.fork()
        f = sk.frames[-1]
        for nm, ty, v in phis: f.env[nm] = at(v, D['phi', nm], widthof(ty), k)
        for loc in M:
            if loc[0] == 'cell':
                r = sk.wr(loc[1])
                r.cells[loc[2]] = (loc[3], at(st.regs[loc[1]].cells[loc[2]][1], D[loc], loc[3] * 8, k))
            elif loc[0] == 'local':
                sk.wr(loc[1]).cells.pop(loc[2], None)
            elif loc[0] == 'seqn':
                sk.wr(loc[1]).n = at(st.regs[loc[1]].n, D[loc], 64, k)
        for loc in arr_locs:
            f2 = arrays[loc]
            if loc[0] == 'seqf': sk.wr(loc[1]).f[loc[2]] = f2
            else: sk.heap[loc[1]] = f2
        sk.pc.append(z3.ULT(k, z3.BitVecVal(1 << 31, 64)))
        return sk
    # placeholder arrays
    marks = set()
    ph = {}
    for loc in arr_locs:
        if loc[0] == 'seqf':
            if not isinstance(loc[2][1], int): raise SummaryFail('object list')
            f0 = st.regs[loc[1]].f.get(loc[2])
            if f0 is None:
                f0 = eng.seq_field(st, st.regs[loc[1]], loc[2][0], loc[2][1], INT(loc[2][1] * 8))
            w = loc[2][1] * 8
            nm = 'ph!%d' % (eng.nfresh + 1)
            eng.nfresh += 1
            u = z3.Function(nm, z3.BitVecSort(64), z3.BitVecSort(w))
            marks.add(nm)
            ph[loc] = Fun(lambda i, u=u: u(bv(i, 64)))
        else:
            w = {'v': 32, 't': 32, 'size': 64, 'p8': 8, 'p64': 64}[loc[1]]
            nm = 'ph!%d' % (eng.nfresh + 1)
            eng.nfresh += 1
            u = z3.Function(nm, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(w))
            marks.add(nm)
            ph[loc] = Fun2(lambda b, i=0, u=u: u(b, bv(i, 64)))
    n_ph = eng.nfresh
    sk = build(ph)
    res = run_iter(sk, True)
    backs = [x for x in res if x[0] == 'back']

    def names(e, acc, seen):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_app(e):
            acc.add(e.decl().name())
            for c in e.children(): names(c, acc, seen)

    def free_of(e, allow_fresh=False):
        if not z3.is_expr(e): return True
        acc = set()
        names(e, acc, set())
        for n in acc:
            if n in marks: return False
            if '!' in n and not allow_fresh:
                try: num = int(n.rsplit('!', 1)[1])
                except ValueError: continue
                if num > n_ph: return False
        return True

    # reads of an array at an index the loop has not written yet denote the initial contents
    def affine(idx, pc):
        i0 = simp(z3.substitute(bv(idx, 64), (k, z3.BitVecVal(0, 64))))
        i1 = simp(z3.substitute(bv(idx, 64), (k, z3.BitVecVal(1, 64))))
        c = simp(bv(i1, 64) - bv(i0, 64))
        for cs in ([1] if c == 1 else [-1] if c == MASK[64] else [1, -1] if not is_c(c) else []):
            if z3.is_true(z3.simplify(bv(idx, 64) == bv(i0, 64) + k * cs)): return i0, cs
        return None
    widx = {}
    for _, s1, pv, pc, _t in backs:
        for loc in arr_locs:
            if loc[0] != 'seqf': continue
            f1 = s1.regs[loc[1]].f[loc[2]]
            for L in f1.layers[len(ph[loc].layers):]:
                a = affine(L[1], pc) if L[0] == 'w' and free_of(bv(L[1], 64)) else None
                widx.setdefault(loc, []).append(a)
    by_name = {}
    for loc in arr_locs:
        if loc[0] == 'seqf': by_name[ph[loc].read(z3.BitVec('any', 64)).decl().name()] = loc

    def resolve(e, pc):
        if not z3.is_expr(e): return e
        for _ in range(6):
            apps, seen = [], set()

            def walk(x):
                if x.get_id() in seen: return
                seen.add(x.get_id())
                for c in x.children(): walk(c)
                if z3.is_app(x) and x.decl().name() in by_name: apps.append(x)
            walk(e)
            done = False
            for a in apps:
                loc = by_name[a.decl().name()]
                arg = a.arg(0)
                if not free_of(arg): continue
                ws = widx.get(loc, [])
                if any(x is None for x in ws): continue
                s_ = z3.Solver()
                s_.set('timeout', 2000)
                s_.add(z3.ULT(k, 1 << 31), z3.Or([z3.ULT((arg - bv(i0, 64)) * cs, k) for i0, cs in ws]) if ws else z3.BoolVal(False))
                if s_.check() != z3.unsat: continue
                f0 = st.regs[loc[1]].f.get(loc[2])
                if f0 is None: continue
                e = z3.simplify(z3.substitute(e, (a, bv(f0.read(arg), a.size()))))
                done = True
                break
            if not done: return e
        return e
    backs = [(t_, s1, pv, [resolve(c, pc) for c in pc], tg) for t_, s1, pv, pc, tg in backs]
    # conditions for continuing
    cont_alts = []
    for _, s1, pv, pc, _t in backs:
        cs = [c for c in pc if free_of(c)]
        cont_alts.append(z3.And(cs) if cs else z3.BoolVal(True))
    cont = z3.simplify(z3.Or(cont_alts)) if cont_alts else z3.BoolVal(False)

    writes = {loc: [] for loc in arr_locs}
    for bi, (_, s1, pv, pc, _t) in enumerate(backs):
        g = cont_alts[bi]
        exact = all(free_of(c) for c in pc)
        for loc in arr_locs:
            f1 = s1.regs[loc[1]].f[loc[2]] if loc[0] == 'seqf' else s1.heap[loc[1]]
            f0 = ph[loc]
            if f1.base is not f0.base or f1.layers[:len(f0.layers)] != f0.layers: raise SummaryFail('array replaced')
            ws = f1.layers[len(f0.layers):]
            if ws and not exact and len(backs) > 1: raise SummaryFail('guard mentions fresh symbols')
            for L in ws:
                if L[0] != 'w': raise SummaryFail('range write in loop')
                if loc[0] == 'seqf': idx, val, base = L[1], L[2], None
                else: base, idx, val = L[1], L[2], L[3]
                if not z3.is_expr(val): raise SummaryFail('object write in loop')
                val = resolve(val, pc)
                if not (free_of(bv(idx, 64)) and free_of(val) and (base is None or free_of(base))):
                    raise SummaryFail('loop-carried array value')
                i0 = simp(z3.substitute(bv(idx, 64), (k, z3.BitVecVal(0, 64))))
                i1 = simp(z3.substitute(bv(idx, 64), (k, z3.BitVecVal(1, 64))))
                c = simp(bv(i1, 64) - bv(i0, 64))
                cands = [1] if c == 1 else [-1] if c == MASK[64] else [1, -1] if not is_c(c) else []
                for cs in cands:
                    if z3.is_true(z3.simplify(bv(idx, 64) == bv(i0, 64) + k * cs)): break
                    s = z3.Solver()
                    s.add(bv(idx, 64) != bv(i0, 64) + k * cs, z3.ULT(k, 1 << 31))
                    for c0 in st.pc: s.add(c0)
                    for c0 in pc: s.add(c0)
                    s.set('timeout', 5000)
                    if s.check() == z3.unsat: break
                else:
                    # header fields of a k-dependent base are not supported
                    raise SummaryFail('non-affine write index')
                if base is not None:
                    acc = set()
                    names(base, acc, set())
                    if k.decl().name() in acc: raise SummaryFail('k-dependent heap base')
                writes[loc].append((g, i0, cs, val, base))

    def hyp(loc):
        f0 = (st.regs[loc[1]].f[loc[2]] if loc[0] == 'seqf' else st.heap[loc[1]])
        f = f0
        for g, i0, cs, val, base in writes[loc]:
            def gf(i, g=g, i0=i0, cs=cs, val=val):
                j = simp((bv(i, 64) - bv(i0, 64)) * cs)
                jj = bv(j, 64)
                cond = z3.And(z3.ULT(jj, k), z3.substitute(g, (k, jj)) if len(backs) > 1 else z3.BoolVal(True))
                return cond, z3.substitute(val, (k, jj))
            if base is None: f = f.guarded(gf)
            else:
                def gf2(b, i, gf=gf, base=base):
                    c, v = gf(i)
                    e = base_eq(b, base)
                    if e is False: return z3.BoolVal(False), v
                    if e is True: return c, v
                    return z3.And(e, c), v
                f = f.guarded(gf2)
        return f
    sk = build({loc: hyp(loc) for loc in arr_locs})

    def q(i):
        i = bv(i, 64)
        return z3.Implies(z3.ULT(i, k), z3.substitute(cont, (k, i)))
    insts = [z3.BitVecVal(0, 64), k - 1] + list(eng.ghost_terms)
    for g in insts:
        sk.pc.append(z3.simplify(q(g)))
    sk.quant.append(q)
    seen = set()
    # instantiate also relative to written indices: handled by q at idx and at idx - start
    offs = set()
    for loc in arr_locs:
        for g, i0, cs, val, base in writes[loc]:
            offs.add((str(i0), cs))
            sk.quant.append(lambda i, i0=i0, cs=cs: q((bv(i, 64) - bv(i0, 64)) * cs))
    res = run_iter(sk, False)
    eng.summarized = getattr(eng, 'summarized', set())
    eng.summarized.add(key)
    exits = [x for x in res if x[0] == 'exit']
    for _, s1, _pv, pc, target in exits:
        eng.solver.push()
        try:
            for c in s1.pc[len(st.pc):]: eng.solver.add(c)
            s2 = eng.goto(s1, target)
            if s2 is not None: eng.run(s2)
        except PathEnd:
            eng.npaths += 1
        finally:
            eng.solver.pop()
    return None


def cut(eng, st, header, body, key):
    """Invariant cut: the loop is replaced by an arbitrary iteration.  Everything the body may change is havocked; the
    invariant is the largest inductive subset (Houdini) of candidate facts: X == X0, X+Y == X0+Y0, X-Y == X0-Y0 over the
    changed integer locations, plus the candidates a task supplies in eng.loop_invs.  The body is then executed once from
    that arbitrary state with all obligations on; exits continue from there."""
    fr = st.frames[-1]
    depth = len(st.frames)
    blk = fr.fn.blocks[header]
    src = fr.blk
    phis = []
    for ph in blk.phis:
        ty, inc = ph.a
        for v, b in inc:
            if b == src:
                phis.append((ph.res, ty, eng.val(st, fr, v, ty)))
                break
        else: raise SummaryFail('phi')

    def run_iter(s0, collect):
        res = []
        n0 = len(s0.pc)
        old_hook, old_end = eng.stop_hook, eng.on_end

        def hook(s, f, target):
            if len(s.frames) == depth:
                if target == header and f.blk in body:
                    pv = []
                    for ph in blk.phis:
                        ty, inc = ph.a
                        for v, b in inc:
                            if b == f.blk: pv.append(eng.val(s, f, v, ty))
                    if ch is not None and hasattr(ch, 'back'):
                        ch.pv = dict(zip([ph.res for ph in blk.phis], pv))
                        ch.back(eng, s, collect)
                    res.append(('back', s.fork(), pv, s.pc[n0:], None))
                    return True
                if target not in body and f.blk in body:
                    res.append(('exit', s.fork(), None, s.pc[n0:], target))
                    return True
            elif len(s.frames) < depth:
                if collect: return True
                return old_hook(s, f, target) if old_hook else False
            return False

        def end(s, k, v):
            if collect: return
            if old_end: old_end(s, k, v)
        eng.stop_hook, eng.on_end = hook, end
        if collect: eng.collect_only += 1
        eng.solver.push()
        try:
            for c in s0.pc[len(st.pc):]: eng.solver.add(c)
            s = s0.fork()
            f = s.frames[-1]
            f.prev, f.blk, f.ip = src, header, 0
            eng.run(s)
        finally:
            eng.solver.pop()
            eng.stop_hook, eng.on_end = old_hook, old_end
            if collect: eng.collect_only -= 1
        return res

    def widthof(ty): return ty.w if ty.k == 'int' else 64

    def havoc(v, w, nm):
        if isinstance(v, RP):
            r = st.regs[v.r]
            if r.kind == 'cells': return RP(v.r, 0, eng.sym(nm, 64))
            return RP(v.r, eng.sym(nm, 64), v.off)
        if isinstance(v, HP):
            sc = scales.get(nm, v.sc)
            return HP(v.b, v.off, eng.sym(nm, 64), sc) if is_c(v.idx) and v.idx == 0 or sc == v.sc else None
        if isinstance(v, (bool, int)) or z3.is_bv(v) or z3.is_bool(v):
            return eng.symb(nm) if w == 1 and (isinstance(v, bool) or z3.is_bool(v)) else eng.sym(nm, max(w, 1))
        if z3.is_fp(v): return z3.fpBVToFP(eng.sym(nm, 32 if v.sort().sbits() == 24 else 64), v.sort())
        return None

    def kd(v):
        if isinstance(v, RP): return ('rp', v.r, str(v.off) if st.regs[v.r].kind == 'seq' else '')
        if isinstance(v, HP): return ('hp', str(v.b))
        if isinstance(v, Ptr): return ('ptr', type(v).__name__)
        return ('s',)

    M, changed, scales = set(), set(), {}
    eng.ncuts = getattr(eng, 'ncuts', 0) + 1
    ncuts = eng.ncuts
    ch = eng.cut_hook(eng, st, key, [(nm, ty, v) for nm, ty, v in phis]) if getattr(eng, 'cut_hook', None) else None
    for rounds in range(10):
        sh = st.fork()
        fh = sh.frames[-1]
        hv = {}
        for nm, ty, v in phis:
            if ('phi', nm) in changed:
                x = havoc(v, widthof(ty), 'cv.' + nm)
                if x is None: raise SummaryFail('cannot havoc %s' % nm)
                hv['phi', nm] = (x, v, widthof(ty))
                fh.env[nm] = x
            else: fh.env[nm] = v
        if ch is not None: ch.M = M
        own = ch.havoc(eng, st, sh) if ch is not None else ()
        for loc in sorted(M, key=str):
            if loc[0] == 'heap' and 'heap' in own or loc[0] in ('seqf', 'seqn') and loc[1] in own: continue
            if loc[0] == 'cell':
                r = sh.wr(loc[1])
                v = r.cells[loc[2]][1]
                x = havoc(v, loc[3] * 8, 'cc')
                if x is None: raise SummaryFail('cannot havoc cell')
                hv[loc] = (x, v, loc[3] * 8)
                r.cells[loc[2]] = (loc[3], x)
            elif loc[0] == 'local': sh.wr(loc[1]).cells.pop(loc[2], None)
            elif loc[0] == 'seqn':
                r = sh.wr(loc[1])
                x = eng.sym('cn', 64)
                hv[loc] = (x, r.n, 64)
                r.n = x
                sh.pc.append(z3.ULT(x, 1 << 31))
            elif loc[0] == 'seqf':
                eng.nfresh += 1
                kind = loc[2][1]
                if kind == 'string':
                    from .models import sv_of_sid
                    u = z3.Function('cutf!%d' % eng.nfresh, z3.BitVecSort(64), z3.BitVecSort(64))
                    sh.wr(loc[1]).f[loc[2]] = Fun(lambda i, u=u: sv_of_sid(u(bv(i, 64))))
                    continue
                u = z3.Function('cutf!%d' % eng.nfresh, z3.BitVecSort(64), z3.BitVecSort(kind * 8) if isinstance(kind, int) else z3.BoolSort())
                sh.wr(loc[1]).f[loc[2]] = Fun(lambda i, u=u: u(bv(i, 64)))
            elif loc[0] == 'heap':
                w = {'v': 32, 't': 32, 'size': 64, 'p8': 8, 'p64': 64}[loc[1]]
                eng.nfresh += 1
                u = z3.Function('cuth!%d' % eng.nfresh, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(w))
                sh.heap[loc[1]] = Fun2(lambda b, i=0, u=u: u(b, bv(i, 64)))
        nlog = len(st.log)
        if hasattr(ch, 'havoc2'): ch.havoc2(eng, st, sh, hv)
        res = run_iter(sh, True)
        backs = [x for x in res if x[0] == 'back']
        new, newp = set(), set()
        for _, s1, pv, pc, _t in backs:
            for (nm, ty, v), nv in zip(phis, pv):
                if ('phi', nm) in changed:
                    if kd(nv) != kd(hv['phi', nm][0]): raise SummaryFail('pointer kind changes')
                elif not psame(v, nv):
                    newp.add(('phi', nm))
                    if isinstance(nv, HP) and isinstance(v, HP): scales['cv.' + nm] = nv.sc if not (is_c(nv.idx) and nv.idx == 0) else abs(nv.off - v.off)
            for loc in diff(eng, s1, sh, 'heap' in own, getattr(ch, 'events', False), getattr(ch, 'writes', False)):
                if loc[0] == 'lazycell':
                    _, rid, o, sz = loc
                    d = st.regs[rid].meta.get('det', {}).get(o) if st.regs[rid].meta else None
                    st.wr(rid).cells[o] = d if d is not None else (sz, st.regs[rid].lazy(eng, st, st.regs[rid], o, INT(sz * 8)))
                    new.add(('cell', rid, o, sz))
                elif loc not in M: new.add(loc)
        if not new and not newp: break
        M |= new
        changed |= newp
    else:
        raise SummaryFail('modified set did not stabilise')

    def tm(x, w):
        if isinstance(x, RP):
            r = st.regs[x.r]
            x = x.idx if r.kind == 'seq' else x.off
        elif isinstance(x, HP): x = eng.hbyte(x)
        elif isinstance(x, Ptr): return None
        if isinstance(x, bool) or z3.is_bool(x): return z3.If(tobool(x), z3.BitVecVal(1, w), z3.BitVecVal(0, w)) if z3.is_bool(x) else z3.BitVecVal(int(x), w)
        if z3.is_fp(x): return None
        return bv(x, w)

    def cur(loc, s1, pv):
        if loc[0] == 'phi': return pv[[p[0] for p in phis].index(loc[1])]
        if loc[0] == 'cell': return s1.regs[loc[1]].cells[loc[2]][1]
        return s1.regs[loc[1]].n
    locs = [(l, x, v, w) for l, (x, v, w) in hv.items() if tm(x, w) is not None]
    cands = []   # (name, init, at havoc, f(s1,pv))
    # lists whose length stays as it is, also those first looked at inside the loop
    lists = {}
    for r in [r for q in [sh] + [b[1] for b in backs] for r in q.regs.values()]:
        if r.kind == 'seq' and not is_c(r.n) and r.es > 1 and ('seqn', r.id) not in M and (r.id in sh.regs or z3.is_const(r.n)): lists.setdefault(r.id, r)
    lists = list(lists.values())[:24]
    for l, x, v, w in locs:
        cands.append(('same', z3.BoolVal(True), tm(x, w) == tm(v, w), lambda s1, pv, l=l, v=v, w=w: tm(cur(l, s1, pv), w) == tm(v, w)))
        if isinstance(x, RP) and isinstance(v, RP) and st.regs[x.r].kind == 'seq' and ('seqn', x.r) not in M and is_c(x.off) and x.off == 0:
            n = bv(st.regs[x.r].n, 64)
            cands.append(('inrange', z3.ULE(tm(v, w), n), z3.ULE(tm(x, w), n), lambda s1, pv, l=l, w=w, n=n: z3.ULE(tm(cur(l, s1, pv), w), n)))
        if not isinstance(x, Ptr) and w in (32, 64) and (is_c(v) and v == 0 or z3.is_bv_value(v) and v.as_long() == 0):
            # an index that runs up to the length of a list
            for r in lists:
                up = lambda t, w=w, n=bv(r.n, 64): z3.ULE(t if w == 64 else z3.ZeroExt(32, t), n)
                cands.append(('index', z3.BoolVal(True), up(tm(x, w)), lambda s1, pv, l=l, w=w, up=up: up(tm(cur(l, s1, pv), w))))
        if w == 8: cands.append(('bool', z3.ULE(tm(v, w), 1), z3.ULE(tm(x, w), 1), lambda s1, pv, l=l, w=w: z3.ULE(tm(cur(l, s1, pv), w), 1)))
    for i, (l, x, v, w) in enumerate(locs if not getattr(ch, 'nolin', False) else ()):
        for l2, x2, v2, w2 in locs[i + 1:]:
            if w != w2 or w == 1: continue
            for sg in (1, -1):
                cands.append(('lin', z3.BoolVal(True), tm(x, w) + sg * tm(x2, w) == tm(v, w) + sg * tm(v2, w),
                              lambda s1, pv, l=l, l2=l2, v=v, v2=v2, w=w, sg=sg: tm(cur(l, s1, pv), w) + sg * tm(cur(l2, s1, pv), w) == tm(v, w) + sg * tm(v2, w)))
    for f in getattr(eng, 'lasts', ()):
        # a flag that tells whether the element before the iterator satisfies a condition
        for l2, x2, v2, w2 in locs:
            if not (isinstance(x2, RP) and st.regs[x2.r].kind == 'seq' and isinstance(v2, RP) and is_c(v2.idx) and v2.idx == 0 and st.regs[x2.r].meta.get('wrap')): continue
            for l, x, v, w in locs:
                if w not in (1, 8): continue

                def at(s, x, p, v=v, w=w):
                    i = simp(bv(p.idx, 64) - 1)
                    return (tm(x, w) != 0) == z3.If(bv(p.idx, 64) == 0, tm(v, w) != 0, f(s, p.r, i))
                cands.append(('last', z3.BoolVal(True), at(sh, x, x2), lambda s1, pv, l=l, l2=l2, at=at: at(s1, cur(l, s1, pv), cur(l2, s1, pv))))
        for l2, x2, v2, w2 in locs:
            # the same with an index
            if isinstance(x2, Ptr) or w2 not in (32, 64) or not (is_c(v2) and v2 == 0): continue
            for q in [q for q in lists if q.meta.get('wrap')]:
                for l, x, v, w in locs:
                    if w not in (1, 8): continue

                    def at(s, x, i, v=v, w=w, q=q, w2=w2):
                        if q.id not in s.regs:
                            s = s.fork()
                            s.regs[q.id] = q
                        i = tm(i, w2) if w2 == 64 else z3.ZeroExt(32, tm(i, w2))
                        return (tm(x, w) != 0) == z3.If(i == 0, tm(v, w) != 0, f(s, q.id, simp(i - 1)))
                    try: cands.append(('last', z3.BoolVal(True), at(sh, x, x2), lambda s1, pv, l=l, l2=l2, at=at: at(s1, cur(l, s1, pv), cur(l2, s1, pv))))
                    except Exception: continue
    for seq, cond in getattr(eng, 'counts', ()):
        # number of elements of a list before the iterator which satisfy a condition: cnt(0) = 0, cnt(i+1) = cnt(i) + [cond(i)]
        cnt = z3.Function('count.' + seq, z3.BitVecSort(64), z3.BitVecSort(32))
        for l2, x2, v2, w2 in locs:
            index = not isinstance(x2, Ptr) and w2 in (32, 64) and is_c(v2) and v2 == 0 and l2[0] == 'phi'
            if not index and not (isinstance(x2, RP) and x2.r == seq and isinstance(v2, RP) and is_c(v2.idx) and v2.idx == 0): continue
            if index and not any(r.id == seq for r in lists): continue
            i = bv(x2.idx, 64) if not index else tm(x2, w2) if w2 == 64 else z3.ZeroExt(32, tm(x2, w2))
            sh.pc.append(z3.And(cnt(z3.BitVecVal(0, 64)) == 0, cnt(i + 1) == cnt(i) + z3.If(cond(sh, i), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))
            for _, s1, pv, pc, _t in backs: s1.pc.append(sh.pc[-1])
            for l, x, v, w in locs:
                if w != 32: continue
                cands.append(('count', z3.BoolVal(True), tm(x, w) == tm(v, w) + cnt(i),
                              lambda s1, pv, l=l, l2=l2, v=v, w=w, w2=w2: tm(cur(l, s1, pv), w) == tm(v, w) + cnt(tm(cur(l2, s1, pv), 64) if w2 == 64 else z3.ZeroExt(32, tm(cur(l2, s1, pv), w2)))))
    def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
    if hasattr(ch, 'cands'): cands += ch.cands(eng, st, sh, hv, lambda l, s1, pv: tm(cur(l, s1, pv), hv[l][2]))
    for f in getattr(eng, 'loop_invs', ()):
        try: cands.append(('user', zb(f(st)), zb(f(sh)), lambda s1, pv, f=f: zb(f(s1))))
        except Exception: continue

    def holds(pc, g):
        g = z3.simplify(g)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        eng.solver.push()
        try:
            eng.solver.add(*pc)
            eng.solver.add(z3.Not(g))
            r = eng.solver.check()
            if r == z3.unknown:
                s2 = z3.Solver()
                s2.set('timeout', eng.timeout_ms * 2)
                s2.add(*eng.solver.assertions())
                r = s2.check()
                # a fact that could not be decided is not used; what then fails is not reported as a violation
                if r == z3.unknown: eng.gave_up = True
            return r == z3.unsat
        finally: eng.solver.pop()
    extra = sh.pc[len(st.pc):]
    bpc = [[x for x in s1.pc[len(st.pc):]] for _, s1, pv, pc, _t in backs]
    if ch is not None:
        ch.hv, ch.cur = hv, lambda loc, s1, ph: cur(loc, s1, [ph[p[0]] for p in phis])
        ch.settle(eng, st, sh, {nm: (fh.env[nm], v) for nm, ty, v in phis}, [(s1, {p[0]: x for p, x in zip(phis, pv)}, bpc[bi]) for bi, (_, s1, pv, pc, _t) in enumerate(backs)], holds)
        extra = sh.pc[len(st.pc):]
    live = [c for c in cands if holds([], c[1])]
    while True:
        if eng.ncuts != ncuts:
            # loops inside this one were cut without these facts: once more, assuming them
            sl = sh.fork()
            sl.pc = sl.pc + [c[2] for c in live]
            backs = [x for x in run_iter(sl, True) if x[0] == 'back']
            bpc = [[x for x in s1.pc[len(st.pc):]] for _, s1, pv, pc, _t in backs]
        hyp = [c[2] for c in live] + (extra if ch is not None or getattr(eng, 'counts', ()) else [])
        keep = []
        for c in live:
            if all(holds(hyp + bpc[bi], c[3](s1, pv)) for bi, (_, s1, pv, pc, _t) in enumerate(backs)): keep.append(c)
        if len(keep) == len(live): break
        live = keep
    sh.pc = sh.pc + [c[2] for c in live]
    eng.summarized = getattr(eng, 'summarized', set())
    eng.summarized.add(key)
    eng.invariants = getattr(eng, 'invariants', {})
    eng.invariants[key] = len(live)
    if hasattr(ch, 'final'): ch.final(eng, sh)
    res = run_iter(sh, False)
    for _, s1, _pv, pc, target in [x for x in res if x[0] == 'exit']:
        eng.solver.push()
        try:
            for c in s1.pc[len(st.pc):]: eng.solver.add(c)
            s2 = eng.goto(s1, target)
            if s2 is not None: eng.run(s2)
        except PathEnd:
            eng.npaths += 1
        finally:
            eng.solver.pop()
    return None
