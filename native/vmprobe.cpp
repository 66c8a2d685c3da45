// Executes ONE real interpreter step (thread_t::step_imp_) from a concrete state read from stdin and dumps the state
// afterwards.  Used to replay verifier counterexamples against the real code and for bounded stand-in sweeps.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cassert>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <memory>
#include <array>
#include <iostream>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <sys/wait.h>
#include <unistd.h>
#include "lib_common/common.h"
#include "lib_common/types.h"
#include "lib_common/program.h"
#include "lib_common/instructions.h"
#include "lib_vm/value.h"
#include "lib_vm/vm_gc.h"
#include "lib_vm/vm.h"
#include "lib_vm/thread.h"
using namespace nano;

static std::vector<value_t*> objs;
static std::ostringstream hostlog;
static bool hret;
static std::map<const value_t*, int> ids;
static std::string refname(const value_t *p) {
  if (!p) return "0";
  auto it = ids.find(p);
  if (it != ids.end()) return std::to_string(it->second + 1);
  return "n";  // a value created by the step
}
static std::string hex(const char *p, size_t n) {
  std::string o; char b[4];
  for (size_t i = 0; i < n; ++i) { snprintf(b, 4, "%02x", (unsigned char)p[i]); o += b; }
  return o.empty() ? "-" : o;
}
#define H2(n) static bool n##_(thread_t &, const value_t *l, const value_t *r) { hostlog << #n " " << refname(l) << " " << refname(r) << ";"; return hret; }
H2(on_equals) H2(on_add) H2(on_sub) H2(on_mul) H2(on_div)
static bool on_member_get_(thread_t &, value_t *v, const std::string &m) { hostlog << "on_member_get " << refname(v) << " " << hex(m.data(), m.size()) << ";"; return hret; }
static bool on_member_set_(thread_t &, value_t *v, value_t *e, const std::string &m) { hostlog << "on_member_set " << refname(v) << " " << refname(e) << " " << hex(m.data(), m.size()) << ";"; return hret; }
static bool on_array_get_(thread_t &, value_t *a, const value_t *i) { hostlog << "on_array_get " << refname(a) << " " << refname(i) << ";"; return hret; }
static bool on_array_set_(thread_t &, value_t *a, const value_t *i, value_t *v) { hostlog << "on_array_set " << refname(a) << " " << refname(i) << " " << refname(v) << ";"; return hret; }
static void sys0(thread_t &, int32_t n) { hostlog << "syscall 0 " << n << ";"; }
static void sys1(thread_t &, int32_t n) { hostlog << "syscall 1 " << n << ";"; }

static std::string unhex(const std::string &s) {
  std::string o; if (s == "-") return o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) o.push_back((char)strtol(s.substr(i, 2).c_str(), nullptr, 16));
  return o;
}
static void dumpval(std::ostream &o, const value_t *v) {
  if (!v) { o << "none"; return; }
  switch (v->type()) {
  case val_type_int: o << "i " << v->v; break;
  case val_type_float: { uint32_t b; memcpy(&b, &v->f, 4); o << "f " << b; break; }
  case val_type_string: o << "s " << v->strlen() << " " << hex(v->string(), v->strlen() + 1); break;
  case val_type_array: o << "a " << v->array_size(); break;
  case val_type_func: o << "F " << v->v; break;
  case val_type_syscall: o << "S " << v->v; break;
  default: o << "?"; break;
  }
}

static void one(std::istream &in) {
  program_t prog;
  vm_t vm(prog);
  std::string k;
  std::unique_ptr<thread_t> tp(new thread_t(vm));
  thread_t &t = *tp;
  t.error_ = thread_error_t::e_success; t.finished_ = false; t.halted_ = false; t.cycles_ = 100; t.waits = 0;
  objs.clear(); ids.clear(); hostlog.str("");
  auto ref = [&](long i) -> value_t* { return i <= 0 ? nullptr : objs.at(i - 1); };
  value_gc_t &gc = *vm.gc_;
  while (in >> k && k != "go") {
    if (k == "code") { std::string h; in >> h; h = unhex(h); prog.code_.assign(h.begin(), h.end()); }
    else if (k == "pc") in >> t.pc_;
    else if (k == "str") { std::string h; in >> h; prog.strings_.push_back(unhex(h)); }
    else if (k == "func") { std::string nm; int a, b, c; in >> nm >> a >> b >> c; function_t f; f.name_ = nm; f.code_start_ = a; f.code_end_ = b; f.args_.resize(c); prog.functions_.push_back(f); }
    else if (k == "sys") { program_t::syscall_entry_t e; e.name_ = "s"; e.call_ = prog.syscalls_.empty() ? sys0 : prog.syscalls_.size() == 1 ? sys1 : nullptr; prog.syscalls_.push_back(e); }
    else if (k == "obj") {
      std::string ty; in >> ty;
      if (ty == "i") { int32_t v; in >> v; objs.push_back(gc.new_int(v)); }
      else if (ty == "f") { uint32_t b; float f; in >> b; memcpy(&f, &b, 4); value_t *v = gc.new_float(0); memcpy(&v->f, &b, 4); objs.push_back(v); }
      else if (ty == "s") { std::string h; in >> h; objs.push_back(gc.new_string(unhex(h))); }
      else if (ty == "a") { int n; in >> n; value_t *v = gc.new_array(n); objs.push_back(v); for (int i = 0; i < n; ++i) { long e; in >> e; v->array()[i] = ref(e); } }
      else if (ty == "F") { int32_t v; in >> v; objs.push_back(gc.new_func(v)); }
      else if (ty == "S") { int32_t v; in >> v; objs.push_back(gc.new_syscall(v)); }
      ids[objs.back()] = (int)objs.size() - 1;
    }
    else if (k == "stack") { int n; in >> n; for (int i = 0; i < n; ++i) { long e; in >> e; t.stack_.stack_.push_back(ref(e)); } }
    else if (k == "glob") { int n; in >> n; for (int i = 0; i < n; ++i) { long e; in >> e; vm.g_.push_back(ref(e)); } }
    else if (k == "frame") { frame_t f; int x; in >> f.sp_ >> f.return_ >> f.callee_ >> x; f.terminal_ = x; t.f_.push_back(f); }
    else if (k == "hret") { int x; in >> x; hret = x; }
    else if (k == "handlers") {
#define S(n) vm.handlers.n = n##_;
      S(on_equals) S(on_add) S(on_sub) S(on_mul) S(on_div) S(on_member_get) S(on_member_set) S(on_array_get) S(on_array_set)
    }
  }
  // values created during the step: numbered after the old ones, in discovery order
  t.step_imp_();
  std::ostringstream o;
  o << "pc " << t.pc_ << "\nerror " << (int)t.error_ << "\nfinished " << (int)t.finished_ << "\nhalted " << (int)t.halted_ << "\ncycles " << t.cycles_ << "\nwaits " << t.waits << "\n";
  std::vector<const value_t*> order(objs.begin(), objs.end());
  auto rid = [&](const value_t *p) -> long {
    if (!p) return 0;
    auto it = ids.find(p);
    if (it == ids.end()) { ids[p] = (int)order.size(); order.push_back(p); return (long)order.size(); }
    return it->second + 1;
  };
  o << "stack"; for (auto *p : t.stack_.stack_) o << " " << rid(p);
  o << "\nglob"; for (auto *p : vm.g_) o << " " << rid(p);
  o << "\nframes"; for (auto &f : t.f_) o << " " << f.sp_ << "," << f.return_ << "," << f.callee_ << "," << (int)f.terminal_;
  o << "\nhost " << hostlog.str() << "\n";
  for (size_t i = 0; i < order.size(); ++i) {
    o << "obj " << (i + 1) << " "; dumpval(o, order[i]);
    if (order[i]->type() == val_type_array) for (int j = 0; j < order[i]->array_size(); ++j) o << " " << rid(order[i]->array()[j]);
    o << "\n";
  }
  o << "end\n";
  std::string s = o.str();
  fwrite(s.data(), 1, s.size(), stdout); fflush(stdout);
  _exit(0);
}

int main() {
  std::string all((std::istreambuf_iterator<char>(std::cin)), std::istreambuf_iterator<char>());
  size_t pos = 0; int n = 0;
  while (true) {
    size_t e = all.find("go\n", pos);
    if (e == std::string::npos) break;
    std::string c = all.substr(pos, e + 3 - pos); pos = e + 3;
    printf("case %d\n", n++); fflush(stdout);
    pid_t p = fork();
    if (p == 0) { alarm(5); int fd = dup(2); (void)fd; freopen("/dev/null", "w", stderr); std::istringstream in(c); one(in); _exit(0); }
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { printf("crash %d\nend\n", WTERMSIG(st)); fflush(stdout); }
    else if (WEXITSTATUS(st)) { printf("crash exit\nend\n"); fflush(stdout); }
  }
}
