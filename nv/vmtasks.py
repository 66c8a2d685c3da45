"""Verification tasks over the interpreter: each opcode of step_imp_ against its specification transformer."""
import re
import z3
from .sx import *
from .world import *
from .world import refine, B64, B32
from . import vmspec, cspec
from .task import Task


def find1(T, rx):
    l = T.mod.find(rx)
    if len(l) != 1: raise Unsupported('function %s: %d matches' % (rx, len(l)))
    return l[0]


V0 = z3.Function('heap.v', B64, B32)
T0 = z3.Function('heap.t', B64, B32)


def stack_top(w, k):
    """pre-state stack slot, k from the top (0 = top)"""
    return z3.Function('stack.f0_8', B64, B64)(z3.simplify(w.n0 - 1 - k))


def is_ty(w, p, n): return z3.And(p != 0, T0(p) == w.E['val_type_' + n])


def v_nostr(w, eng, st, op):
    eng.assume(st, z3.And(*[z3.Not(is_ty(w, stack_top(w, k), 'string')) for k in (0, 1)]))


def v_str(w, eng, st, op):
    eng.assume(st, z3.Or(*[is_ty(w, stack_top(w, k), 'string') for k in (0, 1)]))


def v_topstr(w, eng, st, op):
    eng.assume(st, is_ty(w, stack_top(w, 0), 'string'))


def v_topnostr(w, eng, st, op):
    eng.assume(st, z3.Not(is_ty(w, stack_top(w, 0), 'string')))


def _kind(c, k):
    r = c.stack[-1 - k]
    return c.objs[r - 1][0] if r else None


# name -> (symbolic restriction, concrete restriction)
VARIANTS = {None: (None, None),
            'nostr': (v_nostr, lambda op, c: 's' not in (_kind(c, 0), _kind(c, 1))),
            'str': (v_str, lambda op, c: 's' in (_kind(c, 0), _kind(c, 1))),
            'topstr': (v_topstr, lambda op, c: _kind(c, 0) == 's'),
            'topnostr': (v_topnostr, lambda op, c: _kind(c, 0) != 's')}

STEP = r'^nano::thread_t::step_imp_\(\)'


def op_task(op, variant=None, fields=('pc_', 'error_', 'finished_')):
    name = 'step[%s%s]' % (op, '/' + variant if variant else '')

    def body(T, setup):
        w = World(T)
        eng = setup(w.engine())
        st = w.make(eng)
        vmspec.precondition(w, eng, st, op)
        f = VARIANTS[variant][0]
        if f: f(w, eng, st, op)
        w.st0 = st.fork()
        eng.canary = False

        def end(s, k, v):
            if k != 'ret':
                eng.prove(s, False, op + ': throws')
                return
            if not eng.canary and eng.check() == z3.sat: eng.canary = True
            refine(w, eng, s, vmspec.step_spec(op), op, fields=list(fields))
        eng.on_end = end
        eng.start(st, find1(T, STEP), [RP(w.T)])
        eng.run(st)
    return Task(name, body, group='vm', info={'op': op, 'variant': variant, 'fields': [f.rstrip('_') for f in fields]})


def vm_replay(T, native, task, ints, seed, limit):
    op, var = task.info['op'], task.info['variant']
    return cspec.sweep(native, op, T.enums, extra=ints, seed=seed, limit=limit, variant=VARIANTS[var][1], fields=task.info['fields'])
