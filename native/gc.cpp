// Native oracle: collection preserves every reachable value, sharing and cycles included.
#include "oracle.h"
#include "script.h"
#include <cmath>
#include <algorithm>

struct Graph {
  std::map<const value_t *, int> id;   // arrays by identity
  std::string out;
  void put(const value_t *v) {
    char b[64];
    if (!v) { out += "n "; return; }
    switch (v->type()) {
    case val_type_int: snprintf(b, 64, "i%d ", v->v); out += b; break;
    case val_type_float: snprintf(b, 64, "f%08x ", v->v); out += b; break;
    case val_type_string: snprintf(b, 64, "s%d:", v->strlen()); out += b; out.append(v->string(), v->strlen() + 1); out += " "; break;
    case val_type_func: snprintf(b, 64, "F%d ", v->v); out += b; break;
    case val_type_syscall: snprintf(b, 64, "S%d ", v->v); out += b; break;
    case val_type_array: {
      auto it = id.find(v);
      if (it != id.end()) { snprintf(b, 64, "@%d ", it->second); out += b; break; }
      int k = int(id.size());
      id[v] = k;
      snprintf(b, 64, "a%d=%d[", k, v->array_size());
      out += b;
      for (int i = 0; i < v->array_size(); ++i) put(v->array()[i]);
      out += "] ";
      break;
    }
    default: snprintf(b, 64, "?%d ", int(v->type())); out += b;
    }
  }
};

static std::string image(vm_t &vm) {
  Graph g;
  for (auto *v : vm.g_) g.put(v);
  for (auto *t : vm.threads_) { g.out += "| "; for (int i = 0; i < t->stack_.head(); ++i) g.put(t->stack_.get(i)); }
  return g.out;
}

static bool in(const arena_t &a, const value_t *v) { const uint8_t *p = (const uint8_t *)v; return p >= a.data_.data() && p < a.data_.data() + a.head_; }

static void owned(vm_t &vm, const value_t *v, std::set<const value_t *> &seen) {
  if (!v || !seen.insert(v).second) return;
  value_gc_t &gc = *vm.gc_;
  EXPECT(in(gc.space_from(), v) || in(gc.space_to(), v), "a reachable value lies outside the live part of the heap");
  if (v->type() == val_type_array) for (int i = 0; i < v->array_size(); ++i) owned(vm, v->array()[i], seen);
}

static void g_graph(Rng &r, long) {
  Script s("function f()\n  return 0\nend\n");
  EXPECT(s.ok, "compile: %s", s.err.c_str());
  vm_t vm{s.prog};
  value_gc_t &gc = *vm.gc_;
  std::vector<value_t *> pool, arrays;
  const int nth = int(r.u(4));
  std::vector<thread_t *> th;
  for (int i = 0; i < nth; ++i) th.push_back(vm.new_thread(*s.prog.function_find("f"), 0, nullptr));
  vm.g_.resize(r.u(6));
  for (auto *t : th) { t->waits = r.u(3) ? 0 : int(r.u(5)); t->halted_ = r.u(4) == 0; t->finished_ = r.u(4) == 0; }
  std::string trail;
  const int rounds = 1 + int(r.u(5));
  for (int k = 0; k < rounds; ++k) {
    // mutate: new values, new edges
    pool.clear(); arrays.clear();
    // reachable values only may be used after a collection
    std::set<value_t *> seen;
    std::function<void(value_t *)> walk = [&](value_t *v) {
      if (!v || !seen.insert(v).second) return;
      pool.push_back(v);
      if (v->type() == val_type_array) { arrays.push_back(v); for (int i = 0; i < v->array_size(); ++i) walk(v->array()[i]); }
    };
    for (auto *v : vm.g_) walk(v);
    for (auto *t : th) for (int i = 0; i < t->stack_.head(); ++i) walk(t->stack_.get(i));
    const int fresh = 1 + int(r.u(14));
    for (int i = 0; i < fresh; ++i) {
      value_t *v = nullptr;
      switch (r.u(8)) {
      case 0: v = gc.new_int(int(r.next())); break;
      case 1: v = gc.new_float(float(int(r.u(1000))) / 7); break;
      case 2: { std::string t; for (unsigned q = r.u(60) ? r.u(30) : 65500 + r.u(100); q; --q) t += char(' ' + r.u(90)); v = gc.new_string(t); break; }
      case 3: v = gc.new_func(r.u(50)); break;
      case 4: v = gc.new_syscall(r.u(9)); break;
      default: v = gc.new_array(1 + (r.u(40) ? r.u(5) : r.u(9) ? r.u(300) : r.u(9000))); arrays.push_back(v); break;
      }
      pool.push_back(v);
    }
    pool.push_back(nullptr);
    for (unsigned e = r.u(24); e; --e) if (!arrays.empty()) { value_t *a = r.pick(arrays); a->array()[r.u(a->array_size())] = r.pick(pool); }
    for (auto &v : vm.g_) if (r.u(3) == 0) v = r.pick(pool);
    for (auto *t : th) {
      while (t->stack_.head() > 0 && r.coin()) t->stack_.pop();
      for (unsigned e = r.u(6); e; --e) t->stack_.push(r.pick(pool));
    }
    const std::string before = image(vm);
    trail = before;
    describe("collection %d of the heap image (globals | stacks):\n%s", k, before.c_str());
    if (r.u(8) == 0) {
      // the collection must also be harmless when it is not due
      (void)gc.should_collect();
    }
    vm.gc_collect();
    const std::string after = image(vm);
    EXPECT(before == after, "reachable values changed: now %s", after.substr(0, 1200).c_str());
    std::set<const value_t *> sn;
    for (auto *v : vm.g_) owned(vm, v, sn);
    for (auto *t : th) for (int i = 0; i < t->stack_.head(); ++i) owned(vm, t->stack_.get(i), sn);
    for (auto *v : sn) EXPECT(!gc.space_to().owns(v), "a survivor lies in the space that will be reused");
    EXPECT(gc.space_to().size() == 0, "the allocation space is not empty after a collection");
    EXPECT(gc.forward_.empty(), "stale forwarding entries remain");
    // survivors must not be overwritten by what is allocated next
    for (int q = 0; q < 40; ++q) { value_t *x = gc.new_array(1 + r.u(9)); memset(x->array(), 0, x->array_size() * 8); }
    EXPECT(image(vm) == before, "allocation overwrote a survivor");
  }
}

static void g_alloc(Rng &r, long) {
  Script s("function f()\n  return 0\nend\n");
  vm_t vm{s.prog};
  value_gc_t &gc = *vm.gc_;
  struct O { const uint8_t *p; size_t n; std::string img; value_t *v; };
  std::vector<O> os;
  std::string d;
  for (int k = 0; k < 60; ++k) {
    value_t *v; size_t n;
    char b[80];
    switch (r.u(7)) {
    case 0: { int x = int(r.next()); v = gc.new_int(x); n = 8; EXPECT(v->type() == val_type_int && v->v == x, "new_int"); break; }
    case 1: { float x = float(r.u(1000)); v = gc.new_float(x); n = 8; EXPECT(v->type() == val_type_float && v->f == x, "new_float"); break; }
    case 2: { std::string t; for (unsigned q = r.u(70); q; --q) t += char('!' + r.u(90)); v = gc.new_string(t); n = 9 + t.size();
      EXPECT(v->type() == val_type_string && v->strlen() == int(t.size()) && !memcmp(v->string(), t.c_str(), t.size() + 1), "new_string(\"%s\")", t.c_str()); break; }
    case 3: { int x = 1 + int(r.u(20)); v = gc.new_array(x); n = 8 + 8 * x; EXPECT(v->type() == val_type_array && v->array_size() == x, "new_array(%d)", x);
      for (int i = 0; i < x; ++i) EXPECT(!v->array()[i], "new_array(%d)[%d] is not none", x, i);
      for (int i = 0; i < x; ++i) v->array()[i] = (value_t *)(uintptr_t)(r.next()); break; }
    case 4: { int x = int(r.u(200)); v = gc.new_func(x); n = 8; EXPECT(v->type() == val_type_func && v->v == x, "new_func"); break; }
    case 5: { int x = int(r.u(200)); v = gc.new_syscall(x); n = 8; EXPECT(v->type() == val_type_syscall && v->v == x, "new_syscall"); break; }
    default: { int x = int(r.u(40)); v = gc.new_string(x); n = 9 + x; EXPECT(v->type() == val_type_string && v->strlen() == x, "new_string(%d)", x); memset(v->string(), 'x', x); v->string()[x] = 0; break; }
    }
    snprintf(b, 80, "%d:%zu ", int(v->type()), n);
    d += b;
    describe("allocations (type:bytes) %s", d.c_str());
    const uint8_t *p = (const uint8_t *)v;
    EXPECT(gc.space_to().owns(v) && p + n <= gc.space_to().data_.data() + gc.space_to().data_.size(), "allocation outside its arena");
    for (auto &o : os) {
      EXPECT(p + n <= o.p || o.p + o.n <= p, "overlapping allocations");
      EXPECT(!memcmp(o.p, o.img.data(), o.n), "an allocation changed another value");
    }
    os.push_back({p, n, std::string((const char *)p, n), v});
  }
}

static void g_pressure(Rng &r, long) {
  // long running script: many collections, results unchanged
  const int n = 1500 + int(r.u(3000));
  char src[900];
  snprintf(src, sizeof src, "var g\nfunction f(n)\n  var a = [1, \"two\", 3.5]\n  g = [a, n]\n  a[0] = g\n  var i = 0\n  var s = \"\"\n  var t = 0\n  while (i < n)\n    var b = [i, s, a]\n    s = \"k\" + i\n    t = t + b[0] %% 7\n    if (i %% 50 == 0)\n      a[1] = s\n    end\n    i = i + 1\n  end\n  var q = a[0]\n  var w = q[0]\n  return s + \",\" + t + \",\" + w[1] + \",\" + w[2] + \",\" + q[1]\nend\n");
  Script s(src);
  EXPECT(s.ok, "compile: %s", s.err.c_str());
  describe("%s\n# f(%d)", src, n);
  vm_t vm{s.prog};
  EXPECT(vm.call_init(), "init");
  value_t a(n);
  const value_t *av[] = {&a};
  value_t *rc = nullptr;
  thread_error_t e;
  EXPECT(vm.call_once(*s.prog.function_find("f"), 1, av, rc, e), "run failed with error %d", int(e));
  long t = 0;
  for (int i = 0; i < n; ++i) t += i % 7;
  char want[200];
  snprintf(want, 200, "k%d,%ld,k%d,%f,%d", n - 1, t, (n - 1) / 50 * 50, 3.5, n);
  EXPECT(rc && rc->type() == val_type_string && !strcmp(rc->string(), want), "result %s, expected %s", rc && rc->type() == val_type_string ? rc->string() : "?", want);
}

static void g_due(Rng &r, long) {
  Script s("function f()\n  return 0\nend\n");
  vm_t vm{s.prog};
  value_gc_t &gc = *vm.gc_;
  if (r.coin()) vm.gc_collect();
  const size_t cap = gc.space_to().capacity(), h = r.u(3) ? std::min(cap - 1, cap / 100 * (74 + r.u(4)) + r.u(40)) : r.u(8) == 0 ? cap / 4 * 3 : size_t(r.next() % cap);
  gc.space_to().head_ = h;
  describe("%zu of %zu bytes in use", h, cap);
  // must be due early enough that an instruction's allocations still fit, and not on a nearly empty heap
  if (h * 100 >= 76 * cap) EXPECT(gc.should_collect(), "collection is not due");
  if (h * 4 <= 3 * cap) EXPECT(!gc.should_collect(), "collection is due too early");
}

int main(int argc, char **argv) {
  return oracle_main(argc, argv, {{"graph", g_graph}, {"alloc", g_alloc}, {"pressure", g_pressure}, {"due", g_due}});
}
