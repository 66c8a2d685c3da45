// compile and run scripts with the real compiler, builtins and VM
#pragma once
#include "lib_common/source.h"
#include "lib_common/program.h"
#include "lib_compiler/nano.h"
#include "lib_compiler/errors.h"
#include "lib_compiler/lexer.h"
#include "lib_compiler/parser.h"
#include "lib_compiler/ast.h"
#include "lib_compiler/codegen.h"
#include "lib_vm/vm.h"
#include "lib_vm/thread.h"
#include "lib_builtins/builtin.h"
using namespace nano;

struct Script {
  program_t prog;
  bool ok;
  std::string err;
  int line;
  Script(const std::string &text, bool opt = true, std::vector<std::pair<std::string, std::pair<int, nano_syscall_t>>> sys = {}) : ok(false), line(-1) {
    source_manager_t src;
    src.load_from_string(text.c_str());
    nano_t n{prog};
    n.optimize = opt;
    builtins_register(n);
    for (auto &s : sys) n.syscall_register(s.first, s.second.first);
    nano::error_t e;
    ok = n.build(src, e);
    if (!ok) { err = e.error; line = e.line.line; return; }
    builtins_resolve(prog);
    for (auto &s : sys) prog.syscall_resolve(s.first, s.second.second);
  }
};
