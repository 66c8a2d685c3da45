// Native oracle: every builtin function called directly with random arguments against its specification.
#include <cmath>
#include <climits>
#include "oracle.h"
#include "script.h"

static const struct { const char *n; int a; } REG[] = {{"abs", 1}, {"min", 2}, {"max", 2}, {"bitand", 2}, {"sin", 1}, {"cos", 1}, {"tan", 1}, {"len", 1}, {"chr", 1},
  {"round", 1}, {"ceil", 1}, {"floor", 1}, {"sqrt", 1}, {"new_thread", -1}, {"wait", 1}, {"new_array", 1}};

static std::string show(const value_t *v) {
  if (!v) return "none";
  char b[64];
  switch (v->type()) {
  case val_type_int: snprintf(b, 64, "i%d", v->v); return b;
  case val_type_float: snprintf(b, 64, v->f != v->f ? "fnan" : "f%a", v->f); return b;
  case val_type_string: return "s" + std::string(v->string(), v->strlen());
  case val_type_array: { std::string s = "["; for (int i = 0; i < v->array_size(); ++i) s += show(v->array()[i]) + ","; return s + "]"; }
  default: snprintf(b, 64, "t%d:%d", int(v->type()), v->v); return b;
  }
}

static value_t *mkval(Rng &r, value_gc_t &gc, const program_t &p) {
  static const int ints[] = {0, 1, -1, 2, 3, 5, 7, 10, 64, 65, 66, 90, 100, 127, 128, 200, 255, 256, 257, 321, 1000, -5, -100, INT_MAX, INT_MIN, INT_MIN + 1};
  static const float fl[] = {0.f, -0.f, 1.f, -1.f, 0.5f, -0.5f, 1.5f, 2.5f, -2.5f, 3.7f, -3.2f, 100.25f, 1e6f, 2e9f, -1e9f, 0.25f, 1e-20f};
  switch (r.u(9)) {
  case 0: case 1: return gc.new_int(ints[r.u(26)]);
  case 2: return gc.new_int(int(r.next()));
  case 3: case 4: return gc.new_float(fl[r.u(17)]);
  case 5: { std::string s; for (unsigned i = r.u(9); i; --i) s += char('a' + r.u(26)); return gc.new_string(s); }
  case 6: return gc.new_array(1 + r.u(9));
  case 7: { const auto &fs = p.functions(); const int32_t pc = r.coin() ? fs[r.u(fs.size())].code_start_ : int(r.u(5000)) - 10; value_t *v = gc.new_func(pc); return v; }
  default: return gc.new_none();
  }
}

static const char *SRC = "var G\nfunction f0()\n  G = 7\n  return 1\nend\nfunction f1(a)\n  return a\nend\nfunction f2(a, b)\n  return b\nend\nfunction f3(a, b, c)\n  return c\nend\n"
  "function f6(a, b, c, d, e, f)\n  return f\nend\nfunction f9(a, b, c, d, e, f, g, h, i)\n  return i\nend\n"
  "function f18(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r)\n  return r\nend\n"
  "function main()\n  abs(1)\n  min(1, 2)\n  max(1, 2)\n  bitand(1, 2)\n  sin(1)\n  cos(1)\n  tan(1)\n  len(\"\")\n  chr(1)\n  round(1)\n  ceil(1)\n  floor(1)\n  sqrt(1)\n  new_thread(f0)\n  wait(0)\n  new_array(1)\nend\n";

static nano_syscall_t find(program_t &p, const std::string &n) {
  for (auto &s : p.syscalls()) if (s.name_ == n) return s.call_;
  return nullptr;
}
static void fn(const std::string &name, Rng &r, long) {
  static Script *s = nullptr;
  if (!s) s = new Script(SRC);
  EXPECT(s->ok, "compile: %s", s->err.c_str());
  nano_syscall_t call = find(s->prog, name);
  EXPECT(call, "%s does not resolve", name.c_str());
  vm_t vm{s->prog};
  thread_t *t = vm.new_thread(*s->prog.function_find("main"), 0, nullptr);
  EXPECT(t, "no thread");
  int want = 1;
  for (auto &e : REG) if (name == e.n) want = e.a;
  const function_t *aim = nullptr;
  if (want < 0) { const auto &fs = s->prog.functions(); aim = &fs[r.u(fs.size())]; }
  int n = want < 0 ? (r.u(4) ? int(aim->args_.size()) + 1 : int(r.u(r.coin() ? 5 : 21))) : r.u(8) ? want : int(r.u(4));
  auto &st = t->get_stack();
  const int base = st.head();
  const int extra = 1 + int(r.u(3));
  std::vector<std::string> below;
  std::vector<value_t *> a;
  for (int i = 0; i < extra; ++i) { value_t *v = mkval(r, t->gc(), s->prog); st.push(v); below.push_back(show(v)); }
  std::string d = name + "(";
  for (int i = 0; i < n; ++i) {
    value_t *v = mkval(r, t->gc(), s->prog);
    if (name == "new_thread" && i == 0 && r.u(6)) { const auto &fs = s->prog.functions(); v = t->gc().new_func(r.u(4) ? aim->code_start_ + (r.u(4) ? 0 : int(r.u(uint32_t(aim->code_end_ - aim->code_start_)))) : r.u(3) ? fs[r.u(fs.size())].code_start_ : r.coin() ? fs[r.u(fs.size())].code_end_ : -1); }
    if (name == "new_array" && v->is_number() && v->as_int() > 100000) v = t->gc().new_int(r.u(5000));
    st.push(v); a.push_back(v); d += (i ? ", " : "") + show(v);
  }
  describe("%s) with %d values below", d.c_str(), extra);
  bool floaty = false;
  for (auto v : a) if (v && v->is_a<val_type_float>() && !(std::fabs(v->f) < 2147480000.f)) floaty = true;
  if (floaty && (name == "wait" || name == "new_array")) return;
  const size_t nt = vm.threads_.size();
  const uint32_t w0 = t->waits;
  // expected
  std::string err, res;
  bool halt = false; uint32_t waits = w0;
  char b[64];
  auto F = [&](float x) { snprintf(b, 64, x != x ? "fnan" : "f%a", x); res = b; };
  auto I = [&](int32_t x) { snprintf(b, 64, "i%d", x); res = b; };
  auto num = [&](value_t *v) { return v && v->is_number(); };
  auto asf = [&](value_t *v) { return v->is_a<val_type_int>() ? float(v->v) : v->f; };
  auto asi = [&](value_t *v) { return v->is_a<val_type_int>() ? v->v : int32_t(v->f); };
  const function_t *cf = nullptr;
  std::vector<std::string> targs;
  if (want >= 0 && n != want) err = "n";
  else if (name == "abs") { if (!num(a[0])) err = "a"; else if (a[0]->is_a<val_type_int>()) I(a[0]->v < 0 ? int32_t(0u - uint32_t(a[0]->v)) : a[0]->v); else F(a[0]->f < 0 ? -a[0]->f : a[0]->f); }
  else if (name == "min") { if (!num(a[0]) || !num(a[1])) err = "a"; else { float x = asf(a[0]), y = asf(a[1]); F(y < x ? y : x); } }
  else if (name == "max") { if (!num(a[0]) || !num(a[1])) err = "a"; else { float x = asf(a[0]), y = asf(a[1]); F(y > x ? y : x); } }
  else if (name == "bitand") { if (!a[0] || !a[1] || !a[0]->is_a<val_type_int>() || !a[1]->is_a<val_type_int>()) err = "a"; else I(a[0]->v & a[1]->v); }
  else if (name == "len") { if (a[0] && a[0]->is_a<val_type_string>()) I(int(strlen(a[0]->string()))); else if (a[0] && a[0]->is_a<val_type_array>()) I(a[0]->array_size()); else err = "a"; }
  else if (name == "chr") { if (!a[0] || !a[0]->is_a<val_type_int>()) err = "a"; else { res = "s"; char c = char(a[0]->v); if (c) res += c; } }
  else if (name == "wait") { if (!num(a[0])) err = "a"; else { int w = asi(a[0]); waits = w > 0 ? w : 0; halt = w > 0; I(0); } }
  else if (name == "new_array") { if (!num(a[0]) || asi(a[0]) <= 0) err = "a"; else { res = "["; for (int i = 0; i < asi(a[0]); ++i) res += "none,"; res += "]"; } }
  else if (name == "new_thread") {
    if (n > 0 && a[0] && a[0]->is_a<val_type_func>()) for (auto &f : s->prog.functions()) if (a[0]->v >= f.code_start_ && a[0]->v < f.code_end_) cf = &f;
    if (!cf || int(cf->args_.size()) + 1 != n) { err = "a"; cf = nullptr; } else { I(0); for (int i = 1; i < n; ++i) targs.push_back(show(a[i])); }
  }
  else { if (!num(a[0])) err = "a"; else { float x = asf(a[0]);
    if (name == "sin") F(sinf(x)); else if (name == "cos") F(cosf(x)); else if (name == "tan") F(tanf(x)); else if (name == "round") F(roundf(x));
    else if (name == "ceil") F(ceilf(x)); else if (name == "floor") F(floorf(x)); else if (name == "sqrt") F(sqrtf(x)); } }
  t->halted_ = false;
  call(*t, n);
  if (!err.empty()) {
    EXPECT(t->get_error() == (err == "n" ? thread_error_t::e_bad_num_args : thread_error_t::e_bad_argument), "error %d raised, expected %s", int(t->get_error()), err == "n" ? "e_bad_num_args" : "e_bad_argument");
    EXPECT(vm.threads_.size() == nt, "a failing call started a thread");
    return;
  }
  EXPECT(!t->has_error(), "raises error %d", int(t->get_error()));
  EXPECT(st.head() == base + extra + 1, "leaves %d values, expected exactly one result", st.head() - base - extra);
  EXPECT(show(st.peek()) == res, "returned %s, expected %s", show(st.peek()).substr(0, 80).c_str(), res.substr(0, 80).c_str());
  st.pop();
  for (int i = extra; i-- > 0;) { std::string g = show(st.pop()); EXPECT(g == below[i], "a value below the arguments changed from %s to %s", below[i].c_str(), g.c_str()); }
  EXPECT(t->waits == waits, "wait count %u, expected %u", t->waits, waits);
  EXPECT(t->halted_ == halt, "halted %d, expected %d", t->halted_, halt);
  EXPECT(!t->finished_, "the call finished the thread");
  if (name == "new_thread") {
    EXPECT(vm.threads_.size() == nt + 1, "no thread was started");
    thread_t *u = nullptr;
    for (thread_t *x : vm.threads_) if (x != t) u = x;
    EXPECT(u && u->pc_ == cf->code_start_, "the new thread starts elsewhere");
    EXPECT(u->stack_.head() >= int(targs.size()), "arguments missing");
    for (size_t i = 0; i < targs.size(); ++i) EXPECT(show(u->stack_.get(int(i))) == targs[i], "argument %d is %s, expected %s", int(i), show(u->stack_.get(int(i))).c_str(), targs[i].c_str());
  }
}

static void g_names(Rng &r, long k) {
  // registered names and argument counts: a call with the right count compiles, every other count does not
  const int q = int(k % 16);
  for (int n = 0; n < 4; ++n) {
    std::string src = "function z()\nend\nfunction main()\n  " + std::string(REG[q].n) + "(";
    for (int i = 0; i < n; ++i) src += i ? ", 1" : "1";
    src += ")\nend\n";
    Script s(src);
    describe("%s", src.c_str());
    EXPECT(s.ok == (REG[q].a < 0 || REG[q].a == n), "%s with %d arguments: compiles=%d", REG[q].n, n, s.ok);
  }
  // resolution: every entry with a builtin's name gets that builtin, every other entry is left alone
  static Script *ref = nullptr;
  if (!ref) ref = new Script(SRC);
  program_t p;
  static int dummy;
  std::vector<std::pair<std::string, nano_syscall_t>> w;
  std::string d;
  for (unsigned i = r.u(12); i; --i) {
    std::string n = REG[r.u(16)].n;
    switch (r.u(6)) { case 0: n += "x"; break; case 1: n = n.substr(1); break; case 2: n[0] = char(toupper(n[0])); break; }
    nano_syscall_t old = r.coin() ? nullptr : nano_syscall_t(&dummy), f = find(ref->prog, n);
    p.syscalls().push_back({n, old});
    w.push_back({n, f ? f : old});
    d += n + " ";
  }
  describe("resolve %s", d.c_str());
  builtins_resolve(p);
  EXPECT(p.syscalls().size() == w.size(), "table size changed");
  for (size_t i = 0; i < w.size(); ++i) { EXPECT(p.syscalls()[i].name_ == w[i].first, "name changed"); EXPECT(p.syscalls()[i].call_ == w[i].second, "entry %d (%s) resolves to the wrong function", int(i), w[i].first.c_str()); }
}

int main(int argc, char **argv) {
  std::vector<Group> g;
  static std::vector<std::string> names;
  for (auto &e : REG) names.push_back(std::string("fn_") + e.n);
  for (size_t i = 0; i < names.size(); ++i) { std::string n = names[i].substr(3); g.push_back({names[i].c_str(), [n](Rng &r, long k) { fn(n, r, k); }}); }
  g.push_back({"names", g_names});
  return oracle_main(argc, argv, g);
}
