"""Mechanical extraction: /repo's current sources -> LLVM IR (clang -O0, then sroa), plus layout/enum probes."""
import os, re, subprocess, tempfile, shutil, hashlib, glob, concurrent.futures
from .ir import Module, Unsupported

REPO = os.environ.get('NV_REPO', '/repo')
LIBS = ['lib_common', 'lib_vm', 'lib_compiler', 'lib_builtins']
CFLAGS = ['-std=c++17', '-O0', '-fno-delete-null-pointer-checks', '-Xclang', '-disable-O0-optnone',
          '-fno-discard-value-names', '-w', '-S', '-emit-llvm', '-include', 'cstring', '-D__error_t_defined=1']


class BuildError(Exception):
    pass


def sources():
    out = []
    for l in LIBS: out += sorted(glob.glob('%s/source/%s/*.cpp' % (REPO, l)))
    return out


def scratch():
    return tempfile.mkdtemp(prefix='nv.')


def compile_ir(src, out, extra=()):
    p = subprocess.run(['clang++-18', *CFLAGS, '-I', REPO + '/source/lib_common', *extra, src, '-o', out], capture_output=True, text=True)
    if p.returncode: raise BuildError('%s: %s' % (src, p.stderr[:2000]))
    return out


# members defined in a header that only the host calls: named here so that the compiler emits their code
INLINE = {'lib_common/source.h': ['nano::source_t::get_line']}


def emit_inline(d):
    out = []
    for h, fns in INLINE.items():
        for i, f in enumerate(fns):
            src = '%s/inline_%s_%d.cpp' % (d, h.replace('/', '_').replace('.', '_'), i)
            open(src, 'w').write('#include <string>\n#include <vector>\n#include <memory>\n#include "%s/source/%s"\nauto nv_inline_%d = &%s;\n' % (REPO, h, i, f))
            try: out.append(compile_ir(src, src[:-4] + '.ll'))
            except BuildError: pass
    return out


def build_ir(d):
    srcs = sources()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        x = ex.submit(emit_inline, d)
        lls = list(ex.map(lambda s: compile_ir(s, '%s/%s.ll' % (d, s.replace(REPO, '').replace('/', '_'))), srcs)) + x.result()
    p = subprocess.run(['llvm-link-18', '-S', *lls, '-o', d + '/all.ll'], capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[:2000])
    p = subprocess.run(['opt-18', '-S', '-passes=sroa', d + '/all.ll', '-o', d + '/opt.ll'], capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[:2000])
    for l in lls: os.remove(l)
    os.remove(d + '/all.ll')
    return d + '/opt.ll'


HEADERS = ['lib_common/common.h', 'lib_common/types.h', 'lib_common/program.h', 'lib_common/instructions.h', 'lib_common/source.h',
           'lib_vm/value.h', 'lib_vm/vm_gc.h', 'lib_vm/vm.h', 'lib_vm/thread.h', 'lib_vm/thread_error.h',
           'lib_compiler/ast.h', 'lib_compiler/token.h', 'lib_compiler/lexer.h', 'lib_compiler/parser.h', 'lib_compiler/program_builder.h',
           'lib_compiler/nano.h', 'lib_compiler/errors.h', 'lib_compiler/codegen.h']

FIELDS = {
    'thread_t': 'user_data waits last_line_ error_ cycles_ finished_ halted_ pc_ vm_ gc_ f_ stack_ breakpoints_',
    'frame_t': 'sp_ return_ callee_ terminal_',
    'value_stack_t': 'stack_ thread_ gc_',
    'value_t': 'v type_',
    'vm_t': 'handlers program_ gc_ g_ threads_',
    'handlers_t': 'on_thread_error on_thread_finish on_member_get on_member_set on_array_get on_array_set on_equals on_add on_sub on_mul on_div',
    'program_t': 'globals_ syscalls_ functions_ code_ line_table_ strings_',
    'program_t::syscall_entry_t': 'name_ call_',
    'function_t': 'name_ code_start_ code_end_ locals_ args_',
    'identifier_t': 'name_ offset_',
    'line_t': 'file line',
    'value_gc_t': 'forward_ flipflop_ space_',
    'arena_t': 'head_ data_ start_ end_',
    'token_t': 'type_ str_ val_ valf_ line_',
    'token_stream_t': 'nano_ index_ line_ stream_',
    'lexer_t': 'nano_ stream_ line_',
    'nano_t': 'optimize program_ sources_ source_ errors_ lexer_ parser_ ast_ codegen_',
    'parser_t': 'nano_ exp_stack_ op_stack_',
    'ast_t': 'program nano_ allocs_',
    'error_t': 'error line',
    'program_builder_t': 'program_ data_',
    'source_t': '_filename _data _lines',
    'source_manager_t': 'sources_',
    'ast_visitor_t': 'stack',
    'ast_node_t': 'type',
    'ast_exp_ident_t': 'name decl',
    'ast_exp_deref_t': 'token lhs index',
    'ast_exp_lit_str_t': 'token value',
    'ast_exp_lit_var_t': 'token val',
    'ast_exp_lit_float_t': 'token val',
    'ast_exp_none_t': 'token',
    'ast_exp_array_init_t': 'name expr',
    'ast_exp_bin_op_t': 'token left right op',
    'ast_exp_unary_op_t': 'op child',
    'ast_exp_call_t': 'token callee args locals',
    'ast_exp_member_t': 'name member decl',
    'ast_stmt_if_t': 'token expr then_block else_block',
    'ast_stmt_while_t': 'token expr body',
    'ast_stmt_for_t': 'token name start end body decl',
    'ast_stmt_return_t': 'token expr',
    'ast_stmt_assign_var_t': 'name expr decl',
    'ast_stmt_assign_array_t': 'name index expr decl',
    'ast_stmt_assign_member_t': 'name member expr decl',
    'ast_stmt_call_t': 'expr',
    'ast_decl_func_t': 'token end name args body is_syscall locals stack_size is_varargs',
    'ast_decl_var_t': 'scope name expr is_const offset',
    'ast_block_t': 'nodes',
    'ast_program_t': 'children',
}

# classes defined inside a .cpp file are probed with that file included
CPP_FIELDS = {
    'lib_compiler/codegen.cpp': {'codegen_pass_t': 'nano_ stream_ funcs_ strings_ func_map_ call_fixups_'},
    'lib_compiler/optimize.cpp': {'opt_const_expr_t': 'val_ errs_ ast_', 'opt_post_ret_t': 'errs_', 'opt_if_remove_t': 'errs_ ast_'},
    'lib_compiler/sema.cpp': {'eval_t': 'value_ errs_ valid_', 'sema_const_t': 'errs_ ast_', 'sema_global_var_t': 'errs_ ast_ change_ strict_',
                              'sema_decl_annotate_t': 'scope_ errs_ nano_ prog_', 'sema_multi_decls_t': 'errs_ scope_', 'sema_num_args_t': 'nano_ errs_ funcs_'},
    'lib_compiler/pre_codegen.cpp': {'pregen_offset_t': 'errs_ global_offset_ stack_size_ offset_', 'pregen_functions_t': 'nano_ f_ funcs_', 'pregen_init_t': 'nano_ ast_ init_'},
}

ENUM_SRC = [('lib_common/instructions.h', 'instruction_e', 'nano::'), ('lib_vm/thread_error.h', 'thread_error_t', 'nano::thread_error_t::'),
            ('lib_vm/value.h', 'value_type_t', 'nano::'), ('lib_compiler/token.h', 'token_e', 'nano::'),
            ('lib_compiler/ast.h', 'ast_type_t', 'nano::'), ('lib_compiler/ast.h', 'scope_t', 'nano::ast_decl_var_t::')]


def enum_names(path, enum):
    try: s = open(path).read()
    except OSError: return []
    s = re.sub(r'//[^\n]*', '', s)
    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
    m = re.search(r'enum\s+(?:class\s+)?%s\b[^{]*\{(.*?)\}' % enum, s, re.S)
    if not m: return []
    out = []
    for x in m.group(1).split(','):
        x = x.strip()
        if not x: continue
        mm = re.match(r'[A-Za-z_]\w*', x)
        if mm: out.append(mm.group(0))
    return out


def probe(d, fields=FIELDS, cpp=None):
    """-> (offsets {(cls,field):off}, sizes {cls:size}, enums {name:value}).  Missing members are skipped one by one."""
    hdr = ['#include <cstddef>', '#include <cstdint>', '#include <cstdarg>', '#include <string>', '#include <vector>', '#include <map>', '#include <set>', '#include <list>',
           '#include <memory>', '#include <array>', '#include <bitset>', '#include <unordered_map>', '#include <unordered_set>',
           '#include <cstdlib>', '#include <cassert>', '#include <sstream>', '#include <functional>', '#include <algorithm>',
           '#define protected public', '#define private public']
    for h in HEADERS + ([cpp] if cpp else []):
        if os.path.exists('%s/source/%s' % (REPO, h)): hdr.append('#include "%s/source/%s"' % (REPO, h))
    # member existence is decided by SFINAE-free lines that may fail one at a time: use requires-like lambda templates
    body = ['namespace nvp { template<class T> struct tag{};']
    items = []
    i = 0
    for cls, fl in fields.items():
        for f in fl.split():
            body.append('template<class T> constexpr auto off%d(int) -> decltype((void)sizeof(((T*)0)->%s), (unsigned long)0) { return __builtin_offsetof(T, %s); }' % (i, f, f))
            body.append('template<class T> constexpr unsigned long off%d(...) { return 999999999ul; }' % i)
            items.append((i, cls, f))
            i += 1
    body.append('}')
    cdecl = []
    for cls in fields:
        base = cls.split('::')[-1]
    dd = {}
    lines = []
    for i, cls, f in items:
        lines.append('extern "C" const unsigned long nvo_%d; const unsigned long nvo_%d = nvp::off%d<nano::%s>(0);' % (i, i, i, cls))
    for n, cls in enumerate(fields):
        lines.append('extern "C" const unsigned long nvs_%d; const unsigned long nvs_%d = sizeof(nano::%s);' % (n, n, cls))
    en = []
    for path, enum, pre in (ENUM_SRC if not cpp else []):
        for x in enum_names('%s/source/%s' % (REPO, path), enum): en.append((x, pre + x))
    for n, (x, full) in enumerate(en):
        lines.append('extern "C" const long nve_%d; const long nve_%d = (long)%s;' % (n, n, full))
    tag = '' if not cpp else re.sub(r'\W', '_', cpp)
    src = d + '/probe%s.cpp' % tag
    drop = set()
    for attempt in range(12):
        txt = '\n'.join(hdr + body + [l for k, l in enumerate(lines) if k not in drop])
        open(src, 'w').write(txt)
        p = subprocess.run(['clang++-18', '-std=c++17', '-O0', '-w', '-S', '-emit-llvm', '-ferror-limit=0', '-include', 'cstring', '-D__error_t_defined=1',
                            '-I', REPO + '/source/lib_common', src, '-o', d + '/probe%s.ll' % tag], capture_output=True, text=True)
        if p.returncode == 0: break
        # drop failing lines
        tl = txt.split('\n')
        bad = set()
        for m in re.finditer(r'probe\w*\.cpp:(\d+):\d+: error', p.stderr):
            t = tl[int(m.group(1)) - 1]
            for k, l in enumerate(lines):
                if l == t and k not in drop: bad.add(k)
        if not bad: raise BuildError('probe: ' + p.stderr[:1500])
        drop |= bad
    else:
        raise BuildError('probe does not stabilise')
    s = open(d + '/probe%s.ll' % tag).read()
    val = {m.group(1): int(m.group(2)) for m in re.finditer(r'@(nv[ose]_\d+) = .*?constant i64 (-?\d+)', s)}
    offs = {(cls, f): val['nvo_%d' % i] for i, cls, f in items if val.get('nvo_%d' % i, 999999999) != 999999999}
    sizes = {cls: val['nvs_%d' % n] for n, cls in enumerate(fields) if 'nvs_%d' % n in val}
    enums = {x: val['nve_%d' % n] for n, (x, _) in enumerate(en) if 'nve_%d' % n in val}
    return offs, sizes, enums


class Target:
    def __init__(self):
        self.d = scratch()
        try:
            with concurrent.futures.ThreadPoolExecutor(6) as ex:
                fp = ex.submit(probe, self.d)
                fc = [ex.submit(probe, self.d, f, c) for c, f in CPP_FIELDS.items()]
                ll = build_ir(self.d)
                self.mod = Module(open(ll).read())
                self.offs, self.sizes, self.enums = fp.result()
                for x in fc:
                    try: o, z, _ = x.result()
                    except BuildError: continue
                    self.offs.update(o)
                    self.sizes.update(z)
        finally:
            shutil.rmtree(self.d, ignore_errors=True)

    def off(self, cls, f):
        try: return self.offs[cls, f]
        except KeyError: raise Unsupported('member %s::%s not found' % (cls, f))

    def enum(self, n):
        try: return self.enums[n]
        except KeyError: raise Unsupported('enumerator %s not found' % n)
