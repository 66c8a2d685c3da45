"""Running verification tasks: one task = one function (or opcode) against its contract."""
import os, sys, time, traceback, multiprocessing, signal, re
import z3
from .ir import Unsupported
from .sx import Undecided, NeedSummary, PathEnd, Engine
from .loops import SummaryFail

BUDGET = float(os.environ.get('NV_TASK_BUDGET', '240'))


class Task:
    """body(T, eng_setup) -> engine after exploration.  eng_setup(eng) installs loop decisions and budgets."""

    def __init__(self, name, body, group=None, replay=None, budget=BUDGET, info=None):
        self.name, self.body, self.group, self.replay, self.budget, self.info = name, body, group, replay, budget, info or {}


def standin(name, native, what, limit=4000):
    """a bounded native check standing in where no contract is discharged; never counted as proved"""
    return Task(name, None, info={'standin': True, 'native': native, 'what': what, 'limit': limit})


def model_ints(m):
    """32-bit-ish numerals occurring in a z3 model (seed values for native replay)"""
    out = []
    if m is None: return out

    def add(x):
        if isinstance(x, z3.BitVecNumRef):
            v = x.as_long()
            for w in (v, v & 0xffffffff):
                if w not in out: out.append(w)
        elif z3.is_fp_value(x):
            try:
                b = z3.simplify(z3.fpToIEEEBV(x))
                if isinstance(b, z3.BitVecNumRef) and b.as_long() not in out: out.append(b.as_long())
            except Exception: pass
    for d in m.decls():
        v = m[d]
        if isinstance(v, z3.FuncInterp):
            for i in range(min(v.num_entries(), 40)): add(v.entry(i).value())
            add(v.else_value())
        else: add(v)
        if len(out) > 60: break
    return out[:60]


def run_task(T, task, dump=None):
    t0 = time.time()
    summ, bnd = [], {}
    res = {'task': task.name, 'undecided': None, 'obligations': 0, 'discharged': 0, 'failed': [], 'bounded': [], 'trusted': [], 'contracts': [],
           'functions': [], 'paths': 0, 'spec_paths': 0, 'solver_s': 0.0, 'summarised_loops': [], 'canary': False, 'cut': 0, 'smt': []}
    for attempt in range(24):
        engs = []

        def setup(eng, first=True):
            eng.summarize = set(k for k in summ if k not in bnd)
            eng.bounded_loops = dict(bnd)
            eng.deadline = t0 + task.budget
            if dump is not None: eng.smt_dump = []
            engs.append(eng)
            return eng
        err = None
        try:
            task.body(T, setup)
        except NeedSummary as e:
            if e.key in summ: bnd[e.key] = Engine.BOUND
            else: summ.append(e.key)
            if time.time() - t0 > task.budget: err = 'time budget exhausted'
            else: continue
        except SummaryFail as e:
            k = getattr(e, 'key', None)
            if k is None or k in bnd: err = 'loop: %s' % e
            else:
                bnd[k] = Engine.BOUND
                res['bounded_why'] = str(e)
                continue
        except (Undecided, Unsupported) as e:
            err = '%s: %s' % (type(e).__name__, e)
        except RecursionError:
            err = 'recursion limit'
        except z3.Z3Exception as e:
            err = 'z3: %s' % e
            if os.environ.get('NV_DEBUG'): traceback.print_exc()
        except Exception as e:
            err = 'internal: %s: %s' % (type(e).__name__, e)
            if os.environ.get('NV_DEBUG'): traceback.print_exc()
        break
    else:
        err = 'loop treatment did not stabilise'
    res['undecided'] = err
    for eng in engs:
        for o in eng.obs:
            res['obligations'] += 1
            if o.status == 'ok': res['discharged'] += 1
            else:
                res['failed'].append({'obligation': o.name, 'where': o.where, 'status': o.status, 'goal': o.smt, 'ints': model_ints(o.model),
                                      'model': str(o.model)[:3000] if o.model is not None else None, 'info': {k: str(v)[:600] for k, v in (o.info or {}).items()} if isinstance(o.info, dict) else None})
        res['paths'] += eng.npaths
        res['spec_paths'] += getattr(eng, 'spec_paths', 0)
        res['solver_s'] += eng.solver_time
        res['cut'] += eng.cut
        res['canary'] = res['canary'] or getattr(eng, 'canary', False)
        res['trusted'] = sorted(set(res['trusted']) | set(eng.trusted))
        res['contracts'] = sorted(set(res['contracts']) | set(eng.used_models))
        res['functions'] = sorted(set(res['functions']) | {re.sub(r'\(.*', '', T.mod.dem(n)) for n in eng.inlined if 'nano::' in T.mod.dem(n)})
        res['summarised_loops'] = sorted(set(res['summarised_loops']) | {'%s:%s' % (re.sub(r'\(.*', '', T.mod.dem(k[0])), k[1]) for k in getattr(eng, 'summarized', ())})
        if dump is not None and eng.smt_dump: res['smt'] += eng.smt_dump[:dump]
    for k in bnd: res['bounded'].append('%s:%s unrolled %d times' % (re.sub(r'\(.*', '', T.mod.dem(k[0])), k[1], bnd[k]))
    if res['failed'] and any(getattr(e, 'gave_up', False) for e in engs):
        for f in res['failed']: f['status'] = 'candidate' if f['status'] == 'fail' else f['status']
    if res['obligations'] == 0 and not err: res['undecided'] = 'vacuous: no obligation was generated'
    elif not err and not res['canary']: res['undecided'] = 'vacuous: no feasible path reached the postcondition'
    res['wall_s'] = time.time() - t0
    return res


_T = None
_tasks = None
_dump = None
_t0 = 0


def _work(i):
    # all tasks together leave time for the replay within the 900 s a check has
    _tasks[i].budget = max(20, min(_tasks[i].budget, 450 - (time.time() - _t0)))
    signal.alarm(int(_tasks[i].budget * 1.2 + 30))
    try: return i, run_task(_T, _tasks[i], _dump)
    except BaseException as e:
        return i, {'task': _tasks[i].name, 'undecided': 'worker: %r' % e, 'obligations': 0, 'discharged': 0, 'failed': [], 'bounded': [], 'trusted': [],
                   'contracts': [], 'functions': [], 'paths': 0, 'spec_paths': 0, 'solver_s': 0, 'summarised_loops': [], 'canary': False, 'cut': 0, 'smt': [], 'wall_s': 0}
    finally: signal.alarm(0)


def _alarm(*a): raise Undecided('killed by timer')


def run_tasks(T, tasks, jobs=8, dump=None):
    global _T, _tasks, _dump, _t0
    _T, _tasks, _dump, _t0 = T, tasks, dump, time.time()
    signal.signal(signal.SIGALRM, _alarm)
    if len(tasks) <= 1 or jobs == 1: return [_work(i)[1] for i in range(len(tasks))]
    ctx = multiprocessing.get_context('fork')
    out = [None] * len(tasks)
    with ctx.Pool(min(jobs, len(tasks)), maxtasksperchild=4) as pool:
        for i, r in pool.imap_unordered(_work, range(len(tasks)), chunksize=1): out[i] = r
    return out
