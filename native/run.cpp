// Native oracle: thread lifecycle and scheduling against single-stepping the real interpreter.
#include "oracle.h"
#include "script.h"

static int nerr, nfin;
static bool h_err(thread_t &) { ++nerr; return true; }
static bool h_fin(thread_t &) { ++nfin; return true; }

static const char *bodies[] = {
  "function f(n)\n  var i = 0\n  while (i < n)\n    i = i + 1\n  end\n  return i\nend\n",
  "function f(n)\n  if (n > 20)\n    return 1 / (n - n)\n  end\n  return n * 2\nend\n",
  "function g(a)\n  return a + 1\nend\nfunction f(n)\n  var s = 0\n  var i\n  for (i = 0 to n)\n    s = s + g(i)\n  end\n  return s\nend\n",
  "function f(n)\n  var s = \"\"\n  var i = 0\n  while (i < n)\n    s = s + i\n    i = i + 1\n  end\n  return s\nend\n",
  "function f(n)\n  var a = [1, 2]\n  return a[n]\nend\n",
  "function f(n)\n  if (n < 1)\n    return 0\n  end\n  return 1 + f(n - 1)\nend\n",
};

struct Snap { int pc; bool fin, halt; int err; uint32_t cyc; int depth, frames; std::string top; };
static std::string show(const value_t *v) {
  if (!v) return "none";
  char b[64];
  switch (v->type()) {
  case val_type_int: snprintf(b, 64, "i%d", v->v); return b;
  case val_type_float: snprintf(b, 64, "f%a", v->f); return b;
  case val_type_string: return "s" + std::string(v->string(), v->strlen());
  case val_type_array: { std::string s = "["; for (int i = 0; i < v->array_size(); ++i) s += show(v->array()[i]) + ","; return s + "]"; }
  default: snprintf(b, 64, "t%d:%d", int(v->type()), v->v); return b;
  }
}
static Snap snap(thread_t &t) {
  Snap s{t.pc_, t.finished_, t.halted_, int(t.error_), t.cycles_, t.stack_.head(), int(t.f_.size()), ""};
  if (t.stack_.head() > 0) s.top = show(t.stack_.peek());
  return s;
}
static bool eq(const Snap &a, const Snap &b) { return a.pc == b.pc && a.fin == b.fin && a.err == b.err && a.cyc == b.cyc && a.depth == b.depth && a.frames == b.frames && a.top == b.top; }

static thread_t *mk(vm_t &vm, program_t &p, int n) {
  value_t a(n);
  const value_t *av[] = {&a};
  thread_t *t = vm.new_thread(*p.function_find("f"), 1, av);
  EXPECT(t, "new_thread failed for a matching argument count");
  return t;
}

static void g_resume(Rng &r, long) {
  const char *src = bodies[r.u(6)];
  const int n = int(r.u(30));
  Script s(src);
  EXPECT(s.ok, "compile: %s", s.err.c_str());
  vm_t v1{s.prog}, v2{s.prog};
  nerr = nfin = 0;
  const bool he = r.coin(), hf = r.coin();
  if (he) v1.handlers.on_thread_error = h_err;
  if (hf) v1.handlers.on_thread_finish = h_fin;
  thread_t *a = mk(v1, s.prog, n), *b = mk(v2, s.prog, n);
  // a breakpoint that is never reached changes nothing
  if (r.coin()) { a->breakpoints_.insert(line_t{0, 999}); b->breakpoints_.insert(line_t{0, 999}); }
  for (int k = 0; k < 400; ++k) {
    const int c = r.u(4) ? int(r.u(9)) : int(r.u(200));
    const bool fin0 = a->finished_;
    a->halted_ = r.coin();
    describe("%s\n# f(%d), resume(%d) as call %d, handlers err=%d fin=%d", src, n, c, k, he, hf);
    const int e0 = nerr, f0 = nfin;
    const bool ret = a->resume(c);
    int ran = 0;
    for (int i = 0; i < c && !b->finished_; ++i) { b->step_imp_(); ++ran; }
    const Snap sa = snap(*a), sb = snap(*b);
    EXPECT(eq(sa, sb), "resume differs from single steps: pc %d/%d finished %d/%d error %d/%d cycles %u/%u depth %d/%d frames %d/%d top %s/%s", sa.pc, sb.pc, sa.fin, sb.fin, sa.err, sb.err,
           sa.cyc, sb.cyc, sa.depth, sb.depth, sa.frames, sb.frames, sa.top.c_str(), sb.top.c_str());
    EXPECT(ret == (!fin0 && !a->has_error()), "resume returned %d (finished before %d, error %d)", ret, fin0, int(a->error_));
    EXPECT(nerr - e0 == (he && !fin0 && ran && a->finished_ && a->has_error()), "error handler called %d times", nerr - e0);
    EXPECT(nfin - f0 == (hf && !fin0 && ran && a->finished_), "finish handler called %d times", nfin - f0);
    if (fin0) break;
  }
}

static void g_step(Rng &r, long) {
  const char *src = bodies[r.u(6)];
  const int n = int(r.u(25));
  Script s(src);
  EXPECT(s.ok, "compile: %s", s.err.c_str());
  vm_t v1{s.prog}, v2{s.prog};
  thread_t *a = mk(v1, s.prog, n), *b = mk(v2, s.prog, n);
  for (int k = 0; k < 500; ++k) {
    describe("%s\n# f(%d), step_inst call %d", src, n, k);
    const bool fin0 = a->finished_;
    const bool ret = a->step_inst();
    if (!fin0) b->step_imp_();
    EXPECT(eq(snap(*a), snap(*b)), "step_inst differs from one instruction");
    EXPECT(ret == (!fin0 && !a->has_error()), "step_inst returned %d", ret);
    if (fin0) break;
  }
}

static void g_stepline(Rng &r, long i) {
  const char *src = bodies[r.u(6)];
  const int n = i % 64 == 63 ? 9000 : int(r.u(25));
  if (n == 9000) src = bodies[2];
  Script s(src);
  EXPECT(s.ok, "compile: %s", s.err.c_str());
  vm_t v1{s.prog}, v2{s.prog};
  thread_t *a = mk(v1, s.prog, n), *b = mk(v2, s.prog, n);
  for (long k = 0; k < 100000; ++k) {
    describe("%s\n# f(%d), step_line call %ld", src, n, k);
    const bool fin0 = a->finished_;
    const bool ret = a->step_line();
    if (!fin0) {
      const line_t l = s.prog.get_line(b->pc_);
      do { b->tick_gc_(1); b->step_imp_(); } while (!b->finished_ && s.prog.get_line(b->pc_) == l);
    }
    EXPECT(eq(snap(*a), snap(*b)), "step_line differs from stepping while on the line (pc %d/%d)", a->pc_, b->pc_);
    EXPECT(ret == (!fin0 && !a->has_error()), "step_line returned %d", ret);
    if (fin0) break;
  }
}

static value_t *rnd_value(Rng &r, value_gc_t &gc, int d = 0) {
  switch (r.u(d < 2 ? 7 : 6)) {
  case 0: return gc.new_int(int(r.next()));
  case 1: return gc.new_float(float(int(r.u(2000)) - 1000) / 8);
  case 2: { std::string s; for (unsigned k = r.u(12); k; --k) s += char('a' + r.u(26)); return gc.new_string(s); }
  case 3: return gc.new_none();
  case 4: return gc.new_func(r.u(100));
  case 5: return gc.new_syscall(r.u(4));
  default: { value_t *a = gc.new_array(1 + r.u(4)); for (int i = 0; i < a->array_size(); ++i) a->array()[i] = rnd_value(r, gc, d + 1); return a; }
  }
}

static void g_prepare(Rng &r, long) {
  const int np = int(r.u(5)), argc = r.u(4) ? np : int(r.u(6));
  std::string src = "function q()\n return 1\nend\nfunction f(";
  for (int i = 0; i < np; ++i) src += (i ? ", " : "") + std::string("a") + char('0' + i);
  src += ")\n  return 0\nend\n";
  Script s(src);
  EXPECT(s.ok, "compile: %s", s.err.c_str());
  vm_t vm{s.prog};
  std::vector<const value_t *> av;
  std::vector<std::string> txt;
  std::string d;
  for (int i = 0; i < argc; ++i) { av.push_back(rnd_value(r, *vm.gc_)); txt.push_back(show(av.back())); d += " " + txt.back(); }
  describe("%s\n# new_thread(f, %d args:%s)", src.c_str(), argc, d.c_str());
  const function_t *f = s.prog.function_find("f");
  const size_t before = vm.threads_.size();
  thread_t *t = vm.new_thread(*f, argc, av.data());
  if (argc != np) {
    EXPECT(!t, "new_thread accepted %d arguments for %d parameters", argc, np);
    EXPECT(vm.threads_.size() == before, "a rejected thread was scheduled");
    value_t *rc = nullptr;
    thread_error_t e = thread_error_t::e_success;
    EXPECT(!vm.call_once(*f, argc, av.data(), rc, e), "call_once accepted %d arguments for %d parameters", argc, np);
    EXPECT(e == thread_error_t::e_bad_num_args, "call_once reported error %d", int(e));
    return;
  }
  EXPECT(t, "new_thread rejected a matching argument count");
  EXPECT(vm.threads_.size() == before + 1 && vm.threads_.front() == t, "the new thread is not scheduled");
  EXPECT(!t->finished() && !t->has_error() && t->get_cycle_count() == 0 && !t->halted_ && t->waits == 0, "the new thread is not ready to run");
  EXPECT(t->pc_ == f->code_start_, "starts at %d, not %d", t->pc_, f->code_start_);
  EXPECT(t->stack_.head() == argc, "stack depth %d", t->stack_.head());
  for (int i = 0; i < argc; ++i) EXPECT(show(t->stack_.get(i)) == txt[i], "argument %d is %s, expected %s", i, show(t->stack_.get(i)).c_str(), txt[i].c_str());
  for (int i = 0; i < argc; ++i) {
    const value_t *x = t->stack_.get(i);
    if (av[i]->is_a<val_type_array>()) EXPECT(x == av[i], "array argument %d is not shared", i);
    else if (x) EXPECT(x != av[i], "argument %d is not a copy", i);
  }
  EXPECT(t->f_.size() == 1 && t->f_[0].sp_ == argc && t->f_[0].terminal_ && t->f_[0].callee_ == f->code_start_, "initial frame");
}

static void g_sched(Rng &r, long) {
  Script s("function f(n)\n  var i = 0\n  while (i < n)\n    i = i + 1\n  end\n  if (n == 13)\n    return 1 / (n - n)\n  end\n  return i\nend\n");
  EXPECT(s.ok, "compile: %s", s.err.c_str());
  vm_t vm{s.prog}, ref{s.prog};
  const int n = int(r.u(6));
  std::vector<thread_t *> a, b;
  std::string d;
  for (int i = 0; i < n; ++i) {
    int arg = r.u(5) ? int(r.u(12)) : 13;
    a.push_back(mk(vm, s.prog, arg));
    b.push_back(mk(ref, s.prog, arg));
    int w = r.u(3) ? 0 : int(r.u(4));
    int fin = r.u(4) == 0;
    int er = fin && r.coin();
    a[i]->waits = b[i]->waits = w;
    a[i]->finished_ = b[i]->finished_ = fin;
    a[i]->error_ = b[i]->error_ = er ? thread_error_t::e_bad_argument : thread_error_t::e_success;
    char t[80]; snprintf(t, 80, " f(%d){waits=%d,finished=%d,error=%d}", arg, w, fin, er);
    d += t;
  }
  std::vector<bool> alive(n, true);
  for (int round = 0; round < 30; ++round) {
    const uint32_t c = r.u(60);
    describe("vm.resume(%u), round %d, threads in creation order:%s", c, round, d.c_str());
    bool want = true;
    for (int i = n - 1; i >= 0 && want; --i) {
      if (!alive[i]) continue;
      thread_t *t = b[i];
      if (t->waits) { --t->waits; continue; }
      if (t->finished_ || t->has_error()) { alive[i] = false; continue; }
      for (uint32_t k = 0; k < c && !t->finished_; ++k) t->step_imp_();
      if (t->has_error()) want = false;
    }
    const bool got = vm.resume(c);
    EXPECT(got == want, "vm.resume returned %d", got);
    std::vector<thread_t *> left;
    for (int i = n - 1; i >= 0; --i) if (alive[i]) left.push_back(a[i]);
    EXPECT(std::vector<thread_t *>(vm.threads_.begin(), vm.threads_.end()) == left, "%zu threads remain scheduled, expected %zu (round %d)", vm.threads_.size(), left.size(), round);
    for (int i = 0; i < n; ++i) if (alive[i]) {
      EXPECT(eq(snap(*a[i]), snap(*b[i])), "thread %d progressed differently", i);
      EXPECT(a[i]->waits == b[i]->waits, "thread %d waits %d, expected %d", i, a[i]->waits, b[i]->waits);
    }
    bool fin = true;
    for (int i = 0; i < n; ++i) if (alive[i] && !b[i]->finished_) fin = false;
    EXPECT(vm.finished() == fin, "vm.finished() is %d", vm.finished());
  }
}

static void g_once(Rng &r, long) {
  static const char *waiting = "function f(n)\n  var i = 0\n  while (i < 5)\n    wait(n)\n    i = i + 1\n  end\n  return i + n\nend\n";
  const char *src = r.u(5) ? bodies[r.u(6)] : waiting;
  const int n = r.u(10) ? int(r.u(30)) : 20000;
  if (n == 20000) src = bodies[0];
  Script s(src);
  EXPECT(s.ok, "compile: %s", s.err.c_str());
  describe("%s\n# call_once f(%d)", src, n);
  vm_t vm{s.prog}, ref{s.prog};
  thread_t *b = mk(ref, s.prog, n);
  while (!b->finished_) { b->tick_gc_(1); b->step_imp_(); }
  value_t a(n);
  const value_t *av[] = {&a};
  value_t *rc = (value_t *)8;
  thread_error_t e = thread_error_t::e_bad_pop;
  const bool ok = vm.call_once(*s.prog.function_find("f"), 1, av, rc, e);
  EXPECT(ok == !b->has_error(), "call_once returned %d", ok);
  EXPECT(e == b->error_, "call_once error %d, expected %d", int(e), int(b->error_));
  if (ok) EXPECT(show(rc) == show(b->stack_.peek()), "call_once result %s, expected %s", show(rc).c_str(), show(b->stack_.peek()).c_str());
}

static void g_init(Rng &r, long) {
  static const char *work = "function f(n)\n  var i\n  var s = 0\n  for (i = 0 to n)\n    s = s + 1\n  end\n  return s\nend\nfunction w(n)\n  wait(n)\n  return n\nend\n";
  std::string src = work;
  std::vector<int> want;
  bool bad = false;
  for (int k = 0, n = 1 + int(r.u(5)); k < n; ++k) {
    const int a = r.u(3) ? int(r.u(3000)) : int(r.u(40));
    const unsigned kind = r.u(8);
    src += "var g" + std::to_string(k) + " = ";
    if (kind == 0 && r.u(3) == 0) { src += "f(" + std::to_string(a) + ") / f(0)\n"; bad = true; }
    else if (kind == 1) src += "w(" + std::to_string(a) + ")\n";
    else if (kind == 2) src += std::to_string(a) + "\n";
    else src += "f(" + std::to_string(a) + ")\n";
    want.push_back(a);
  }
  Script s(src);
  EXPECT(s.ok, "compile: %s", s.err.c_str());
  describe("%s\n# call_init", src.c_str());
  vm_t vm{s.prog};
  const bool ok = vm.call_init();
  EXPECT(ok == !bad, "call_init returned %d", ok);
  if (!ok) return;
  EXPECT(vm.g_.size() == want.size(), "%zu globals, expected %zu", vm.g_.size(), want.size());
  for (size_t k = 0; k < want.size(); ++k) EXPECT(vm.g_[k]->is_a<val_type_int>() && vm.g_[k]->v == want[k], "global %zu is %s, expected %d", k, show(vm.g_[k]).c_str(), want[k]);
  program_t none;
  vm_t vm2{none};
  EXPECT(!vm2.call_init(), "an empty program is initialised");
}

static const char *rich[] = {
  "var g = 3\nfunction add(a, b)\n  return a + b\nend\nfunction f(n)\n  var fn = add\n  var a = [1, 2.5, \"x\"]\n  a[1] = fn(n, g)\n  g = g + 1\n  if (not (a[1] == 4) and n <= 7 or n >= 20)\n    return a.length\n  end\n  var s = \"k\" + a[0]\n  return s + -n % 3\nend\n",
  "function f(n)\n  var z\n  if (n > 5)\n    return z + 1\n  end\n  var a = new_array(n)\n  a[n] = 1\n  return a\nend\n",
  "function k(a)\n  return a * 2.0\nend\nfunction f(n)\n  var h = abs\n  k(n)\n  return h(0 - n) / (n - 3) + len(\"abc\")\nend\n",
  "function f(n)\n  var q = n\n  return q(1)\nend\n",
  "function f(n)\n  var q = [n]\n  q.foo = 3\n  return 1\nend\n",
};
static void g_life(Rng &r, long) {
  const unsigned b = r.u(11);
  const char *src = b < 6 ? bodies[b] : rich[b - 6];
  const int n = int(r.u(25));
  Script s(src);
  EXPECT(s.ok, "compile: %s", s.err.c_str());
  vm_t vm{s.prog};
  vm.call_init();
  thread_t *t = mk(vm, s.prog, n);
  for (int k = 0; k < 2000 && !t->finished_; ++k) {
    const bool h = r.coin();
    t->halted_ = h;
    t->waits = 0;
    const uint32_t c = t->cycles_;
    const int op = s.prog.data()[t->pc_], pc = t->pc_;
    describe("%s\n# f(%d), instruction %d (opcode %d at %d)", src, n, k, op, pc);
    t->step_imp_();
    EXPECT(t->cycles_ == c + 1, "opcode %d at %d counted %u cycles", op, pc, t->cycles_ - c);
    EXPECT(t->halted_ == h && t->waits == 0, "opcode %d at %d changed halted/waits", op, pc);
    EXPECT(!t->has_error() || t->finished_, "opcode %d at %d left an error on a running thread", op, pc);
    EXPECT(t->finished_ || !t->f_.empty(), "opcode %d at %d left a running thread without a frame", op, pc);
  }
}

int main(int argc, char **argv) {
  return oracle_main(argc, argv, {{"resume", g_resume}, {"step", g_step}, {"stepline", g_stepline}, {"prepare", g_prepare}, {"sched", g_sched}, {"once", g_once}, {"init", g_init}, {"life", g_life}});
}
