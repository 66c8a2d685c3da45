"""property id -> verification tasks + native replay"""
from .vmtasks import op_task, vm_replay
from .task import standin


class Prop:
    def __init__(self, tasks, harness=None, replay=None, libs=('lib_common', 'lib_vm'), level='proof', groups=None):
        self.tasks, self.harness, self.replay, self.libs, self.level = tasks, harness, replay, libs, level


def vm(*ops, **kw):
    def tasks(T):
        out = []
        for o in ops:
            op, _, var = o.partition('/')
            out.append(op_task(op, var or None, **kw))
            s = standin('step[%s]' % o, 'vm', 'one real interpreter step of this opcode from random states against the specification', 120)
            s.info.update({k: v for k, v in out[-1].info.items() if k not in s.info})
            out.append(s)
        return out
    return Prop(tasks, 'vmprobe.cpp', vm_replay)


ALL_LIBS = ('lib_common', 'lib_vm', 'lib_compiler', 'lib_builtins')


def oracle_replay(T, native, task, ints, seed, limit):
    """run the property's native oracle groups; -> (cases, mismatch)"""
    import re
    n = 0
    gs = task.info.get('native') or ()
    for g in ([gs] if isinstance(gs, str) else gs):
        for sd in (seed, seed + 1000):
            out = native.run('', args=[g, str(sd), str(limit // 2)], timeout=400)
            m = re.search(r'^CASES (\d+)', out, re.M)
            n += int(m.group(1)) if m else 0
            mm = re.search(r'^MISMATCH (.*)$', out, re.M)
            if mm:
                inp = re.search(r'^INPUT\n(.*?)^END', out, re.M | re.S)
                return n, {'mismatch': mm.group(1), 'input': inp.group(1) if inp else None, 'group': g, 'seed': sd}
    return n, None


def oracle(tasks, harness, **kw): return Prop(tasks, harness, oracle_replay, libs=ALL_LIBS, **kw)


def c07(T):
    from .runtasks import run_tasks_all
    return run_tasks_all() + [standin('threads', ('resume', 'step', 'stepline', 'prepare', 'sched', 'once', 'init'), 'random scripts run, stepped, scheduled and initialised against single instructions', 400)]


def c08(T):
    from .gctasks import gc_tasks
    return gc_tasks() + [standin('heaps', ('graph', 'alloc', 'due'), 'random value graphs before and after real collections', 1500)]


def c09(T):
    from .libtasks import lib_tasks
    return lib_tasks()


def c11(T):
    from .cgtasks import cg_tasks
    from .vtasks import t_dispatch, t_dispatch_null, t_walk
    from .pretasks import t_init
    from .task import standin
    return cg_tasks() + [t_init()] + [t_dispatch('codegen_pass_t'), t_dispatch_null(), t_walk('ast_exp_array_init_t'), t_walk('ast_decl_func_t')] + [
        standin('whole programs', ('flow', 'full'), 'random programs through parser, passes, code generator and vm against an independent interpreter', 4000)]


def c16(T):
    from .cgtasks import line_tasks
    from .task import standin
    from .runtasks import t_break, t_step_line, OPS
    sl = t_step_line()
    sl.info = dict(sl.info, native=('lines', 'meet', 'files'))
    return line_tasks() + [sl] + [t_break(o) for o in OPS] + [standin('whole programs', ('lines', 'files', 'meet'), 'lines of errors, stepping and breakpoints of random programs against an independent interpreter', 4000)]


def c10(T):
    from .opttasks import opt_tasks
    from .task import standin
    return opt_tasks() + [standin('whole programs', ('fold',), 'programs with constants, global initialisers and constant expressions, compiled with and without optimisation, against an independent interpreter', 3000)]


def c12(T):
    from .task import standin
    from .parsetasks import parse_tasks
    from .lextasks import token_tasks
    return parse_tasks() + token_tasks() + [standin('whole programs', ('grammar', 'expr', 'full', 'reject'), 'random well-formed and malformed token sequences against an independent grammar reader, and random programs through lexer, parser, code generator and vm against an independent interpreter', 5000)]


def c13(T):
    from .task import standin
    from .lextasks import lex_tasks
    return lex_tasks() + [standin('whole sources', ('lex', 'reject'), 'random token streams and program texts against an independent lexer', 20000)]


def c14(T):
    from .task import standin
    from .sematasks import sema_tasks
    return sema_tasks() + [standin('whole programs', ('names',), 'programs with nested scopes, shadowing, duplicates, unknown names and wrong argument counts against an independent resolver', 3000)]


def c15(T):
    from .task import standin
    from .serialtasks import serial_tasks
    return serial_tasks() + [standin('saved programs', ('serial',), 'random programs saved and loaded, damaged files, unwritable files', 2000)]


def c17(T):
    from .task import standin
    from .hosttasks import host_tasks
    from .libtasks import t_find
    from .pretasks import pre_tasks
    fs = [t_find(False), t_find(True)]
    for t in fs: t.info = dict(t.info, native=('tables', 'host'))
    return host_tasks() + pre_tasks() + fs + [standin('host api', ('host', 'tables', 'files', 'paths'), 'random sources, imports, function and system call tables through the host interface', 1500)]


PROPS = {
    'C10': oracle(c10, 'lang.cpp'),
    'C12': oracle(c12, 'lang.cpp'),
    'C13': oracle(c13, 'lang.cpp'),
    'C14': oracle(c14, 'lang.cpp'),
    'C15': oracle(c15, 'lang.cpp'),
    'C17': oracle(c17, 'lang.cpp'),
    'C11': oracle(c11, 'lang.cpp'),
    'C16': oracle(c16, 'lang.cpp'),
    'C09': oracle(c09, 'lib.cpp'),
    'C08': oracle(c08, 'gc.cpp'),
    'C01': vm('ADD/nostr', 'SUB', 'MUL', 'DIV', 'MOD', 'NEG'),
    'C02': vm('LT', 'GT', 'LEQ', 'GEQ', 'EQ', 'AND', 'OR', 'NOT', 'TJMP', 'FJMP'),
    'C03': vm('ADD/str', 'EQ/str', 'NEW_STR', 'DEREF/topstr'),
    'C04': vm('DEREF/topnostr', 'SETA', 'NEW_ARY', 'ARY_INIT', 'GETM'),
    'C05': vm('NEW_INT', 'NEW_FLT', 'NEW_NONE', 'NEW_FUNC', 'NEW_SCALL', 'GETV', 'SETV', 'GETG', 'SETG', 'LOCALS', 'GLOBALS', 'POP'),
    'C07': oracle(c07, 'run.cpp'),
    'C06': vm('JMP', 'CALL', 'RET', 'SCALL', 'ICALL'),
}
