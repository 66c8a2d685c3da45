// Random script programs: AST generator, printer and an independent tree-walking reference interpreter of the language.
// Only the meaning of the language is encoded here; nothing is taken from the compiler or the virtual machine.
#pragma once
#include <cmath>
#include <climits>
#include <memory>
#include <algorithm>
#include "oracle.h"
#include "script.h"

namespace lang {

enum Kind { K_INT, K_FLT, K_STR, K_NONE, K_VAR, K_FN, K_SYS, K_ARR, K_IDX, K_CALL, K_BIN, K_UN, K_LEN };
enum Op { O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_LT, O_GT, O_LEQ, O_GEQ, O_EQ, O_AND, O_OR, O_NEG, O_NOT };
static const char *OPS[] = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "and", "or", "-", "not"};
static int prec(int o) { return o <= O_SUB ? 4 : o <= O_MOD ? 5 : o <= O_EQ ? 3 : o <= O_OR ? 1 : o == O_NOT ? 2 : 6; }

struct Fn;
struct E;
struct Var { std::string name; int kind; int ty; E *cexpr = nullptr; bool is_const = false; E *fn = nullptr; };  // kind 0 local 1 global 2 arg
struct E { int k; int op = 0; std::vector<E *> c; int32_t i = 0; float f = 0; std::string s; Var *v = nullptr; Fn *fn = nullptr; int line = 0; };
enum SKind { S_VAR, S_ASSIGN, S_COMP, S_SETIDX, S_CALL, S_IF, S_WHILE, S_FOR, S_RET };
struct S { int k; int op = 0; Var *v = nullptr; E *a = nullptr, *b = nullptr; std::vector<S *> t, e; bool has_else = false; int line = 0; };
struct Fn { std::string name; std::vector<Var *> args; std::vector<S *> body; int line = 0, end = 0; int ret = 0; };
struct Prog { std::vector<Var *> globals; std::vector<Fn *> fns; std::string text; };

// ---- values -------------------------------------------------------------------------------------------------------
struct V { char t = 'n'; int32_t i = 0; float f = 0; std::string s; std::shared_ptr<std::vector<V>> a; Fn *fn = nullptr; };
static V vi(int32_t i) { V v; v.t = 'i'; v.i = i; return v; }
static V vf(float f) { V v; v.t = 'f'; v.f = f; return v; }
static V vs(const std::string &s) { V v; v.t = 's'; v.s = s; return v; }
static std::string show(const V &v, int d = 0) {
  char b[64];
  switch (v.t) {
  case 'i': snprintf(b, 64, "i%d", v.i); return b;
  case 'f': snprintf(b, 64, v.f != v.f ? "fnan" : "f%a", v.f); return b;
  case 's': return "s" + v.s;
  case 'a': { if (d > 4) return "[...]"; std::string s = "["; for (auto &x : *v.a) s += show(x, d + 1) + ","; return s + "]"; }
  case 'F': return "F" + v.fn->name;
  case 'Y': return "Y" + v.s;
  default: return "none";
  }
}
struct Err { std::string code; int line; };
struct Ret { V v; };
struct Fuel {};

struct Ref {
  Prog &p;
  std::map<Var *, V> glob;
  std::vector<std::string> out;
  long fuel = 4000;
  int depth = 0;
  int line = 0;
  std::vector<int> lines;
  typedef std::map<Var *, V> Env;
  Ref(Prog &p) : p(p) {}
  [[noreturn]] void err(const char *c) { throw Err{c, line}; }
  void at(int l) { line = l; if (lines.empty() || lines.back() != l) lines.push_back(l); }   // a statement of this line runs (again)
  void tick() { if (--fuel < 0) throw Fuel(); }
  static bool num(const V &v) { return v.t == 'i' || v.t == 'f'; }
  static float fl(const V &v) { return v.t == 'i' ? float(v.i) : v.f; }
  static bool truth(const V &v) { switch (v.t) { case 'i': return v.i != 0; case 'f': return v.f != 0.f; case 's': return !v.s.empty(); case 'a': return !v.a->empty(); case 'F': case 'Y': return true; default: return false; } }
  static bool text(const V &v, std::string &o) {
    switch (v.t) { case 's': o = v.s; return true; case 'i': o = std::to_string(v.i); return true; case 'f': o = std::to_string(v.f); return true; case 'n': o = "none"; return true; default: return false; }
  }
  V bin(int op, const V &l, const V &r) {
    const uint32_t a = uint32_t(l.i), b = uint32_t(r.i);
    const bool ii = l.t == 'i' && r.t == 'i', nn = num(l) && num(r);
    switch (op) {
    case O_ADD: if (ii) return vi(int32_t(a + b)); if (nn) return vf(fl(l) + fl(r));
      if (l.t == 's' || r.t == 's') { std::string x, y; if (text(l, x) && text(r, y)) { if (x.size() + y.size() > 1500) throw Fuel(); return vs(x + y); } if (l.t == 'F' || r.t == 'F') throw Fuel(); }
      err("type");
    case O_SUB: if (ii) return vi(int32_t(a - b)); if (nn) return vf(fl(l) - fl(r)); err("type");
    case O_MUL: if (ii) return vi(int32_t(a * b)); if (nn) return vf(fl(l) * fl(r)); err("type");
    case O_DIV: if (ii) { if (!r.i) err("div0"); return vi(r.i == -1 ? int32_t(0u - a) : l.i / r.i); } if (nn) return vf(fl(l) / fl(r)); err("type");
    case O_MOD: if (ii) { if (!r.i) err("div0"); return vi(r.i == -1 ? 0 : l.i % r.i); } err("type");
    case O_LT: if (ii) return vi(l.i < r.i); if (nn) return vi(fl(l) < fl(r)); err("type");
    case O_GT: if (ii) return vi(l.i > r.i); if (nn) return vi(fl(l) > fl(r)); err("type");
    case O_LEQ: if (ii) return vi(l.i <= r.i); if (nn) return vi(fl(l) <= fl(r)); err("type");
    case O_GEQ: if (ii) return vi(l.i >= r.i); if (nn) return vi(fl(l) >= fl(r)); err("type");
    case O_EQ: if (ii) return vi(l.i == r.i); if (l.t == 's' && r.t == 's') return vi(l.s == r.s); if (l.t == 'F' && r.t == 'F') return vi(l.fn == r.fn);
      if (l.t == 'n' || r.t == 'n') return vi(l.t == 'n' && r.t == 'n'); if (nn) return vi(fl(l) == fl(r)); err("type");
    case O_AND: return vi(truth(l) && truth(r));
    default: return vi(truth(l) || truth(r));
    }
  }
  V &lv(Env &e, Var *v) { return v->kind == 1 ? glob[v] : e[v]; }
  V eval(Env &e, E *x) {
    tick();
    switch (x->k) {
    case K_INT: return vi(x->i);
    case K_FLT: return vf(x->f);
    case K_STR: return vs(x->s);
    case K_NONE: return V();
    case K_VAR: if (x->v->is_const) return eval(e, x->v->cexpr); return lv(e, x->v);
    case K_FN: { V v; v.t = 'F'; v.fn = x->fn; return v; }
    case K_SYS: { V v; v.t = 'Y'; v.s = x->s; return v; }
    case K_ARR: { V v; v.t = 'a'; v.a = std::make_shared<std::vector<V>>(); for (auto *c : x->c) v.a->push_back(eval(e, c)); return v; }
    case K_IDX: { V i = eval(e, x->c[1]), a = eval(e, x->c[0]); return index(a, i); }
    case K_LEN: { V a = lv(e, x->v); if (a.t != 'a') err("member"); return vi(int32_t(a.a->size())); }
    case K_BIN: { V l = eval(e, x->c[0]), r = eval(e, x->c[1]); return bin(x->op, l, r); }
    case K_UN: { V o = eval(e, x->c[0]); if (x->op == O_NOT) return vi(!truth(o)); if (o.t == 'i') return vi(int32_t(0u - uint32_t(o.i))); err("type"); }
    case K_CALL: {
      std::vector<V> a;
      for (size_t i = 1; i < x->c.size(); ++i) a.push_back(eval(e, x->c[i]));
      V f = eval(e, x->c[0]);
      if (f.t == 'Y') return sys(f.s, a);
      if (f.t != 'F') err("type");
      if (f.fn->args.size() != a.size()) err("nargs");
      return call(f.fn, a);
    }
    }
    return V();
  }
  V index(const V &a, const V &i) {
    if (a.t == 'n') err("arrobj");
    if (i.t != 'i') err("arridx");
    if (a.t == 'a') { if (i.i < 0 || i.i >= int(a.a->size())) err("bounds"); return (*a.a)[i.i]; }
    if (a.t == 's') { if (i.i < 0 || i.i >= int(a.s.size())) err("bounds"); return vi((unsigned char)a.s[i.i]); }
    err("type");
  }
  V sys(const std::string &n, std::vector<V> &a) {
    if (n == "out") { if (a.size() != 1) err("nargs"); out.push_back(show(a[0])); return vi(int32_t(out.size())); }
    if (n == "two") { if (a.size() != 2) err("nargs"); out.push_back("2:" + show(a[0]) + "/" + show(a[1])); return a[0]; }
    if (n == "any") { std::string s = "any"; for (auto &v : a) s += "/" + show(v); out.push_back(s); return vi(int32_t(a.size())); }
    if (n == "len") { if (a.size() != 1) err("nargs"); if (a[0].t == 's') return vi(int(a[0].s.size())); if (a[0].t == 'a') return vi(int(a[0].a->size())); err("arg"); }
    if (n == "new_array") { if (a.size() != 1) err("nargs"); if (!num(a[0])) err("arg"); float f = fl(a[0]); if (!(f < 2000.f)) throw Fuel(); int w = a[0].t == 'i' ? a[0].i : int(f); if (w <= 0) err("arg"); V v; v.t = 'a'; v.a = std::make_shared<std::vector<V>>(w); return v; }
    return V();
  }
  V call(Fn *f, const std::vector<V> &a) {
    if (++depth > 60) throw Fuel();
    Env e;
    for (size_t i = 0; i < a.size(); ++i) e[f->args[i]] = a[i];
    const int l0 = line;
    V r = vi(0);
    bool fell = true;
    try { for (auto *s : f->body) exec(e, s); } catch (Ret &x) { r = x.v; fell = false; }
    if (fell) at(f->end);
    if (--depth) at(l0);
    return r;
  }
  void block(Env &e, std::vector<S *> &b) { for (auto *s : b) exec(e, s); }
  void exec(Env &e, S *s) {
    tick();
    at(s->line);
    switch (s->k) {
    case S_VAR: { V v = s->a ? eval(e, s->a) : V(); e[s->v] = v; return; }
    case S_ASSIGN: { V v = eval(e, s->a); lv(e, s->v) = v; return; }
    case S_COMP: { V l = s->v->is_const ? V() : lv(e, s->v); V r = eval(e, s->a); lv(e, s->v) = bin(s->op, l, r); return; }
    case S_SETIDX: { V v = eval(e, s->b), i = eval(e, s->a), a = lv(e, s->v); if (a.t != 'a') err("arrobj"); if (i.t != 'i') err("arridx"); if (i.i < 0 || i.i >= int(a.a->size())) err("bounds"); (*a.a)[i.i] = v; return; }
    case S_CALL: eval(e, s->a); return;
    case S_IF: if (truth(eval(e, s->a))) block(e, s->t); else if (s->has_else) block(e, s->e); return;
    case S_WHILE: while (true) { at(s->line); tick(); if (!truth(eval(e, s->a))) return; block(e, s->t); }
    case S_FOR: {
      V v = eval(e, s->a);
      lv(e, s->v) = v;
      while (true) { at(s->line); tick(); V l = lv(e, s->v); V r = eval(e, s->b); if (!bin(O_LT, l, r).i) return; block(e, s->t); at(s->line); lv(e, s->v) = bin(O_ADD, lv(e, s->v), vi(1)); }
    }
    case S_RET: { V v = s->a ? eval(e, s->a) : V(); throw Ret{v}; }
    }
  }
  void init() { Env e; for (auto *g : p.globals) { glob[g] = V(); } for (auto *g : p.globals) if (!g->is_const && g->cexpr) { line = g->cexpr->line; glob[g] = eval(e, g->cexpr); } }
};

// ---- printing -----------------------------------------------------------------------------------------------------
struct Style { bool noisy = false, parens = false, cases = false; };
struct Printer {
  Rng &r;
  Style st;
  std::string o;
  int line = 1, ind = 0;
  Printer(Rng &r, Style s) : r(r), st(s) {}
  std::string kw(const std::string &s) { if (!st.cases || r.u(3)) return s; std::string t = s; for (auto &c : t) if (r.coin()) c = char(toupper(c)); return t; }
  std::string sp(bool must = false) { if (!st.noisy) return " "; switch (r.u(5)) { case 0: return must ? " " : ""; case 1: return "\t"; case 2: return "  "; case 3: return must ? " " : ""; default: return " "; } }
  void nl() { if (st.noisy && r.u(5) == 0) o += r.coin() ? " # note \"x\" end (" : "   "; if (st.noisy && r.u(9) == 0) o += "\r"; o += "\n"; ++line; if (st.noisy) while (r.u(6) == 0) { o += r.coin() ? "" : "  # a comment + 1"; o += "\n"; ++line; } }
  void indent() { if (st.noisy && r.u(4) == 0) { o += "\t"; return; } for (int i = 0; i < ind; ++i) o += "  "; }
  static std::string esc(const std::string &s) { return "\"" + s + "\""; }
  std::string e(E *x, int ctx = 0) {
    x->line = line;
    std::string s;
    int p = 9;
    switch (x->k) {
    case K_INT: s = std::to_string(uint32_t(x->i)); break;
    case K_FLT: s = x->s; break;
    case K_STR: s = esc(x->s); break;
    case K_NONE: s = kw("none"); break;
    case K_VAR: s = x->v->name; break;
    case K_FN: s = x->fn->name; break;
    case K_SYS: s = x->s; break;
    case K_LEN: s = x->v->name + "." + "length"; break;
    case K_ARR: { s = "["; for (size_t i = 0; i < x->c.size(); ++i) s += (i ? "," + sp() : "") + e(x->c[i]); s += "]"; break; }
    case K_IDX: s = e(x->c[0], 8) + "[" + e(x->c[1]) + "]"; break;
    case K_CALL: { s = e(x->c[0], 8) + "("; for (size_t i = 1; i < x->c.size(); ++i) s += (i > 1 ? "," + sp() : "") + e(x->c[i]); s += ")"; break; }
    case K_BIN: {
      p = prec(x->op);
      const bool w = x->op >= O_AND;
      std::string l = e(x->c[0], p), rr = e(x->c[1], p + 1);
      s = l + sp(w) + kw(OPS[x->op]) + sp(w) + rr;
      break;
    }
    case K_UN: if (x->op == O_NOT) { p = 2; s = kw("not") + sp(true) + e(x->c[0], 2); } else { p = 6; s = "-" + sp() + e(x->c[0], 6); } break;
    }
    if (p < ctx || (st.parens && r.u(5) == 0)) s = "(" + sp() + s + sp() + ")";
    return s;
  }
  void stmts(std::vector<S *> &b) { ++ind; for (auto *x : b) stmt(x); --ind; }
  void stmt(S *x) {
    indent();
    x->line = line;
    switch (x->k) {
    case S_VAR: o += kw("var") + sp(true) + x->v->name; if (x->a) o += sp() + "=" + sp() + e(x->a); break;
    case S_ASSIGN: o += x->v->name + sp() + "=" + sp() + e(x->a); break;
    case S_COMP: o += x->v->name + sp() + OPS[x->op] + "=" + sp() + e(x->a); break;
    case S_SETIDX: o += x->v->name + "[" + e(x->a) + "]" + sp() + "=" + sp() + e(x->b); break;
    case S_CALL: { x->a->line = x->a->c[0]->line = line; std::string q = (x->a->c[0]->k == K_FN ? x->a->c[0]->fn->name : x->a->c[0]->k == K_VAR ? x->a->c[0]->v->name : x->a->c[0]->s) + "("; for (size_t i = 1; i < x->a->c.size(); ++i) q += (i > 1 ? "," + sp() : "") + e(x->a->c[i]); o += q + ")"; break; }
    case S_RET: o += kw("return"); if (x->a) o += sp(true) + e(x->a); break;
    case S_IF: o += kw("if") + sp() + "(" + e(x->a) + ")"; nl(); stmts(x->t); if (x->has_else) { indent(); o += kw("else"); nl(); stmts(x->e); } indent(); o += kw("end"); break;
    case S_WHILE: o += kw("while") + sp() + "(" + e(x->a) + ")"; nl(); stmts(x->t); indent(); o += kw("end"); break;
    case S_FOR: o += kw("for") + sp() + "(" + sp() + x->v->name + sp() + "=" + sp() + e(x->a) + sp(true) + kw("to") + sp(true) + e(x->b) + ")"; nl(); stmts(x->t); indent(); o += kw("end"); break;
    }
    nl();
  }
  void prog(Prog &p) {
    for (auto *g : p.globals) { o += kw(g->is_const ? "const" : "var") + sp(true) + g->name; if (g->cexpr) o += sp() + "=" + sp() + e(g->cexpr); nl(); }
    for (auto *f : p.fns) {
      f->line = line;
      o += kw("function") + sp(true) + f->name + "(";
      for (size_t i = 0; i < f->args.size(); ++i) o += (i ? "," + sp() : "") + f->args[i]->name;
      o += ")";
      nl();
      stmts(f->body);
      f->end = line;
      o += kw("end");
      nl();
    }
    p.text = o;
  }
};

// ---- generation ---------------------------------------------------------------------------------------------------
struct Mix { int depth = 3, stm = 5, lit = 3, unary = 2, bad = 1, blocks = 2, fns = 3, flt = 1, str = 1, arr = 1, call = 2, novar = 0, dead = 0; bool globals = true; };
static const char *SYSN[] = {"out", "two", "any", "len", "new_array"};

struct Gen {
  Rng &r;
  Mix m;
  Prog p;
  int uid = 0, loops = 0;
  std::vector<std::vector<Var *>> scopes;
  std::set<std::string> used;      // names visible now
  std::vector<std::string> retired;
  std::set<Var *> busy;            // loop counters that must not be assigned
  bool arr_alias = false;
  // now and then something is large: argument and element lists, blocks, nesting, declarations, operator chains, strings
  enum { PLAIN, ARGS, WIDE, DEEP, DECLS, CHAIN, LONG, FUNCS };
  int mode = PLAIN;
  std::string pre;                 // what all names of some programs begin with
  Gen(Rng &r, Mix m0) : r(r), m(m0) {
    if (r.u(6) == 0) mode = 1 + int(r.u(7));
    if (r.u(8) == 0) { static const char A[] = "abcdefgXYZ_019"; pre = "q"; for (unsigned k = 3 + (r.u(4) ? r.u(30) : r.u(280)); k; --k) pre += A[r.u(14)]; }
    if (mode == WIDE) { if (m.stm) m.stm = 24; m.depth = 2; if (m.blocks > 1) m.blocks = 1; }
    if (mode == DEEP && m.blocks) { m.blocks = 9; m.stm = 3; m.depth = 2; }
    if (mode == ARGS || mode == LONG) m.depth = m.depth > 2 ? 2 : m.depth;
  }
  unsigned many(unsigned n) { return mode == ARGS && r.u(3) == 0 ? r.u(26) : r.u(n); }
  E *mk(int k) { E *e = new E; e->k = k; return e; }
  E *ilit(int32_t i) { E *e = mk(K_INT); e->i = i; return e; }
  std::string fresh() {
    if (!retired.empty() && r.u(2)) { std::string n = r.pick(retired); if (!used.count(n)) return n; }
    static const char *st[] = {"a", "b", "x", "val", "_t", "andy", "iff", "ending", "Else1", "to_", "none2", "nota", "forx", "v9", "Wh", "i"};
    return pre + st[r.u(16)] + std::to_string(++uid);
  }
  Var *decl(int kind, int ty) {
    Var *v = new Var; v->name = fresh(); v->kind = kind; v->ty = ty; used.insert(v->name);
    scopes.back().push_back(v);
    return v;
  }
  void push() { scopes.emplace_back(); }
  void pop() { for (auto *v : scopes.back()) { used.erase(v->name); retired.push_back(v->name); } scopes.pop_back(); }
  Var *pick(int ty, bool assign) {
    std::vector<Var *> c;
    for (auto &s : scopes) for (auto *v : s) if ((ty < 0 || v->ty == ty) && !(assign && (v->is_const || busy.count(v)))) c.push_back(v);
    return c.empty() ? nullptr : r.pick(c);
  }
  int32_t rint() {
    static const int32_t k[] = {0, 1, 2, 3, 5, 7, 10, 16, 100, 255, 256, 1000, 65535, 65536, 2147483647, INT_MIN, 123456789};
    return r.u(3) ? int32_t(r.u(12)) : k[r.u(17)];
  }
  // types: 0 int, 1 float, 2 string, 3 array
  E *expr(int ty, int d) {
    if (m.bad && r.u(60) == 0) ty = int(r.u(4));
    if (mode == CHAIN && ty == 0 && d == m.depth && r.u(3)) {
      E *e = leaf(0);
      for (unsigned n = 5 + r.u(40); n; --n) { E *x = r.u(4) ? leaf(0) : expr(0, 1); E *o = mk(K_BIN); o->op = r.u(12); if (r.u(8)) o->c = {e, x}; else o->c = {x, e}; e = o; if (r.u(10) == 0) { E *q = mk(K_UN); q->op = r.coin() ? O_NEG : O_NOT; q->c = {e}; e = q; } }
      return e;
    }
    if (d <= 0 || r.u(8) < unsigned(m.lit)) return leaf(ty);
    switch (ty) {
    case 0: {
      const unsigned c = r.u(10);
      if (c < unsigned(m.unary)) { E *e = mk(K_UN); e->op = r.coin() ? O_NEG : O_NOT; e->c = {expr(0, d - 1)}; return e; }
      if (c == 9 && m.call) return call(d);
      if (c == 8 && m.arr) { Var *v = pick(3, false); if (v) { if (r.u(3) == 0) { E *e = mk(K_LEN); e->v = v; return e; } E *e = mk(K_IDX); E *b = mk(K_VAR); b->v = v; e->c = {b, idx(d)}; return e; } }
      if (c == 7 && m.str && r.u(3) == 0) { E *e = mk(K_BIN); e->op = O_EQ; e->c = {expr(2, d - 1), expr(2, d - 1)}; return e; }
      if (c == 6 && m.flt && r.u(2)) { E *e = mk(K_BIN); e->op = O_LT + r.u(5); e->c = {expr(r.u(2), d - 1), expr(1, d - 1)}; return e; }
      E *e = mk(K_BIN); e->op = r.u(12); e->c = {expr(0, d - 1), expr(0, d - 1)};
      return e;
    }
    case 1: { E *e = mk(K_BIN); e->op = r.u(4); e->c = {expr(1, d - 1), expr(r.u(2), d - 1)}; if (r.coin()) std::swap(e->c[0], e->c[1]); return e; }
    case 2: { E *e = mk(K_BIN); e->op = O_ADD; e->c = {expr(2, d - 1), expr(r.u(4) ? 2 : r.u(2), d - 1)}; if (r.u(4) == 0) std::swap(e->c[0], e->c[1]); return e; }
    default: { E *e = mk(K_ARR); for (unsigned n = 1 + many(4); n; --n) e->c.push_back(expr(r.u(5) ? 0 : r.u(4), d - 1)); return e; }
    }
  }
  E *idx(int d) { return r.u(4) ? ilit(r.u(4)) : expr(0, d - 1); }
  std::vector<std::string> strs;   // literals so far: later ones repeat, extend, cut or change them in one place
  std::string str() {
    std::string s;
    if (!strs.empty() && r.u(3) == 0) {
      s = r.pick(strs);
      switch (r.u(5)) { case 0: s += char('a' + r.u(26)); break; case 1: if (!s.empty()) s.pop_back(); break; case 2: if (!s.empty()) s.back() = char('a' + r.u(26)); break; case 3: if (!s.empty()) s[r.u(uint32_t(s.size()))] = char('a' + r.u(26)); break; }
    } else for (unsigned n = mode == LONG && r.u(3) == 0 ? r.u(400) : r.u(4) ? r.u(6) : r.u(40); n; --n) { char c = char(32 + r.u(95)); if (c == '"') c = '\''; s += c; }
    strs.push_back(s);
    return s;
  }
  E *leaf(int ty) {
    if (r.u(3) && int(r.u(10)) >= m.novar) { Var *v = pick(ty, false); if (v) { E *e = mk(K_VAR); e->v = v; return e; } }
    switch (ty) {
    case 0: return ilit(rint());
    case 1: { static const char *f[] = {"0.5", "1.5", "2.0", "0.25", "100.125", "3.", "0.0", "12.75", "0.001", "1234.5", "99999.9", "0.1", "3.14159"}; E *e = mk(K_FLT); e->s = f[r.u(13)]; e->f = strtof(e->s.c_str(), nullptr); return e; }
    case 2: { E *e = mk(K_STR); e->s = str(); return e; }
    default: if (r.u(3) == 0) { E *e = mk(K_CALL); E *f = mk(K_SYS); f->s = "new_array"; e->c = {f, ilit(1 + r.u(5))}; return e; } { E *e = mk(K_ARR); for (unsigned n = 1 + r.u(3); n; --n) e->c.push_back(leaf(0)); return e; }
    }
  }
  E *call(int d) {
    E *e = mk(K_CALL);
    if (p.fns.empty() || r.u(3) == 0) {
      E *f = mk(K_SYS);
      const int w = int(r.u(4));
      f->s = SYSN[w];
      e->c.push_back(f);
      if (w == 0) e->c.push_back(expr(r.u(4), d - 1));
      else if (w == 1) { e->c.push_back(expr(0, d - 1)); e->c.push_back(expr(r.u(4), d - 1)); }
      else if (w == 2) for (unsigned n = many(4); n; --n) e->c.push_back(expr(r.u(4), d - 1));
      else e->c.push_back(expr(2 + r.u(2), d - 1));
      return e;
    }
    E *f = mk(K_FN);
    f->fn = r.pick(p.fns);
    e->c.push_back(f);
    for (auto *a : f->fn->args) e->c.push_back(expr(a->ty, d - 1));
    return e;
  }
  static bool constval(E *e, int32_t &v, bool &div0) {
    int32_t a, b;
    switch (e->k) {
    case K_INT: v = e->i; return true;
    case K_VAR: if (e->v->is_const && e->v->cexpr) return constval(e->v->cexpr, v, div0); return false;
    case K_UN: { bool x = constval(e->c[0], a, div0); if (!x) return false; v = e->op == O_NOT ? !a : int32_t(0u - uint32_t(a)); return true; }
    case K_BIN: {
      bool x = constval(e->c[0], a, div0), y = constval(e->c[1], b, div0);
      if (!x || !y) return false;
      if (b == 0 && (e->op == O_DIV || e->op == O_MOD)) { div0 = true; return false; }
      switch (e->op) {
      case O_ADD: v = int32_t(uint32_t(a) + uint32_t(b)); break; case O_SUB: v = int32_t(uint32_t(a) - uint32_t(b)); break; case O_MUL: v = int32_t(uint32_t(a) * uint32_t(b)); break;
      case O_DIV: v = b == -1 ? int32_t(0u - uint32_t(a)) : a / b; break; case O_MOD: v = b == -1 ? 0 : a % b; break;
      case O_LT: v = a < b; break; case O_GT: v = a > b; break; case O_LEQ: v = a <= b; break; case O_GEQ: v = a >= b; break; case O_EQ: v = a == b; break;
      case O_AND: v = a && b; break; default: v = a || b; break;
      }
      return true;
    }
    default: for (auto *c : e->c) constval(c, a, div0); return false;
    }
  }
  E *safe(int ty, int d) {
    for (int k = 0; k < 20; ++k) { E *e = expr(ty, d); int32_t v; bool z = false; constval(e, v, z); if (!z) return e; }
    return leaf(ty);
  }
  int rty() { unsigned c = r.u(10); return c == 0 && m.flt ? 1 : c == 1 && m.str ? 2 : c == 2 && m.arr ? 3 : 0; }
  S *ms(int k) { S *s = new S; s->k = k; return s; }
  void body(std::vector<S *> &b, int n, int d) { for (int i = 0; i < n; ++i) stmt(b, d); }
  void stmt(std::vector<S *> &b, int d) {
    const unsigned c = mode == DEEP && d > 0 && r.u(3) ? 9 : mode == DECLS && r.u(2) ? 0 : r.u(16);
    if (r.u(14) == 0 && !m.novar) {   // a function or system call kept in a variable and called through it
      Var *v = pick(7, false);
      if (!v || r.u(3) == 0) {
        S *s = ms(S_VAR);
        if (!p.fns.empty() && r.u(4)) { s->a = mk(K_FN); s->a->fn = r.pick(p.fns); } else { s->a = mk(K_SYS); s->a->s = SYSN[r.u(2)]; }
        s->v = v = decl(0, 7);
        v->fn = s->a;
        b.push_back(s);
      }
      if (m.bad && r.u(12) == 0) v = pick(0, false);
      if (v) {
        E *e = mk(K_CALL); E *f = mk(K_VAR); f->v = v; e->c = {f};
        if (v->fn && v->fn->k == K_FN) for (auto *a : v->fn->fn->args) e->c.push_back(safe(a->ty, m.depth - 1));
        else { e->c.push_back(safe(0, m.depth - 1)); if (v->fn && v->fn->s == SYSN[1]) e->c.push_back(safe(r.u(4), m.depth - 1)); }
        if (m.bad && r.u(8) == 0) { if (r.coin()) e->c.push_back(ilit(3)); else if (e->c.size() > 1) e->c.pop_back(); }
        if (r.coin()) { S *q = ms(S_CALL); q->a = e; b.push_back(q); }
        else { S *q = ms(S_VAR); q->a = e; q->v = decl(0, 8); b.push_back(q); S *o = ms(S_CALL); E *w = mk(K_CALL); E *g = mk(K_SYS); g->s = "out"; E *x = mk(K_VAR); x->v = q->v; w->c = {g, x}; o->a = w; b.push_back(o); }
      }
      return;
    }
    if (c < 4) {
      const int ty = rty();
      S *s = ms(S_VAR);
      if (r.u(5)) s->a = safe(ty, m.depth);
      s->v = decl(0, ty);
      b.push_back(s);
      if (!s->a) { S *a = ms(S_ASSIGN); a->v = s->v; a->a = safe(ty, m.depth); if (r.u(3)) b.push_back(a); else { S *q = ms(S_CALL); E *e = mk(K_CALL); E *f = mk(K_SYS); f->s = "out"; E *x = mk(K_VAR); x->v = s->v; e->c = {f, x}; q->a = e; b.push_back(q); b.push_back(a); } }
      return;
    }
    if (c < 7) { const int ty = rty(); Var *v = pick(ty, true); if (v) { S *s = ms(S_ASSIGN); s->v = v; s->a = safe(ty, m.depth); b.push_back(s); return; } }
    if (c == 7) { const int ty = m.flt ? int(r.u(2)) : 0; Var *v = pick(ty, true); if (v) { S *s = ms(S_COMP); s->v = v; s->op = r.u(4); s->a = safe(ty, m.depth - 1); E t; t.k = K_BIN; t.op = s->op; E vv; vv.k = K_VAR; vv.v = v; t.c = {&vv, s->a}; b.push_back(s); return; } }
    if (c == 8 && m.arr) { Var *v = pick(3, false); if (v && !v->is_const) { S *s = ms(S_SETIDX); s->v = v; s->a = idx(m.depth); s->b = safe(r.u(6) ? 0 : r.u(3), m.depth); int32_t t; bool z = false; constval(s->a, t, z); if (!z) { b.push_back(s); return; } } }
    if (c < 11 && d > 0 && m.blocks) {
      const unsigned k = r.u(4);
      if (r.u(6) == 0) {   // a loop whose condition is a constant: never entered, or left by a return
        S *s = ms(S_WHILE);
        const bool in = r.u(4) == 0;
        E *e = nullptr;
        int32_t v = 0; bool z = false;
        for (int q = 0; q < 20; ++q) { const int nv = m.novar; m.novar = 10; e = expr(0, 1 + int(r.u(2))); m.novar = nv; z = false; if (constval(e, v, z) && !z && (v != 0) == in) break; e = nullptr; }
        if (!e) { e = ilit(in ? 1 + r.u(3) : 0); if (in && r.coin()) { E *q = mk(K_UN); q->op = O_NEG; q->c = {e}; e = q; } }
        s->a = e;
        push(); body(s->t, int(r.u(m.stm)), d - 1); if (in) { S *t = ms(S_RET); if (r.u(5)) t->a = safe(rty(), m.depth); s->t.push_back(t); } pop();
        b.push_back(s);
        return;
      }
      if (k < 2) {
        S *s = ms(S_IF);
        s->a = safe(0, m.depth);
        push(); body(s->t, int(r.u(m.stm)), d - 1); pop();
        if (r.coin()) { s->has_else = true; push(); body(s->e, int(r.u(m.stm)), d - 1); pop(); }
        b.push_back(s);
        return;
      }
      if (loops < 2) {
        ++loops;
        S *dv = ms(S_VAR);
        if (k == 2) {  // while with a protected counter
          dv->a = ilit(r.u(3)); dv->v = decl(0, 0); b.push_back(dv);
          S *s = ms(S_WHILE);
          E *c1 = mk(K_BIN); c1->op = O_LT; E *x = mk(K_VAR); x->v = dv->v; c1->c = {x, ilit(1 + r.u(5))};
          s->a = c1;
          if (r.u(3) == 0) { E *an = mk(K_BIN); an->op = O_AND; an->c = {c1, safe(0, 2)}; s->a = an; int32_t v; bool z = false; constval(s->a, v, z); if (z) s->a = c1; }
          busy.insert(dv->v);
          push(); body(s->t, int(r.u(m.stm)), d - 1); pop();
          S *inc = ms(r.coin() ? S_COMP : S_ASSIGN); inc->v = dv->v;
          if (inc->k == S_COMP) { inc->op = O_ADD; inc->a = ilit(1); } else { E *a = mk(K_BIN); a->op = O_ADD; E *y = mk(K_VAR); y->v = dv->v; a->c = {y, ilit(1)}; inc->a = a; }
          s->t.push_back(inc);
          busy.erase(dv->v);
          b.push_back(s);
        } else {
          dv->v = decl(0, 0); if (r.coin()) dv->a = ilit(9); b.push_back(dv);
          S *s = ms(S_FOR); s->v = dv->v; s->a = r.u(3) ? ilit(r.u(3)) : safe(0, 1); s->b = r.u(3) ? ilit(r.u(7)) : safe(0, 1);
          busy.insert(dv->v);
          push(); body(s->t, int(r.u(m.stm)), d - 1); pop();
          busy.erase(dv->v);
          b.push_back(s);
        }
        --loops;
        return;
      }
    }
    if (c == 11 && (m.dead || r.u(3) == 0)) { S *s = ms(S_RET); if (r.u(5)) s->a = safe(rty(), m.depth); b.push_back(s); return; }
    S *s = ms(S_CALL);
    s->a = call(m.depth);
    if (s->a->c[0]->k == K_FN && false) {}
    int32_t v; bool z = false; constval(s->a, v, z);
    if (z) return;
    b.push_back(s);
  }
  Prog make() {
    push();
    for (auto *n : SYSN) used.insert(n);
    used.insert("main");
    if (m.globals) for (unsigned n = mode == DECLS ? r.u(30) : r.u(5); n; --n) {
      const bool k = r.u(3) == 0;
      const int ty = k ? int(r.u(3)) : rty();
      E *e = nullptr;
      if (k) { e = ty == 0 && r.coin() ? safe(0, 2) : nullptr; int32_t v; bool z = false; if (!e || !constval(e, v, z) || z) { const int l = r.u(4); e = ty == 0 ? ilit(rint()) : ty == 1 ? (l, leaf1(1)) : leaf1(2); } }
      else if (r.u(4)) { const int c0 = m.call; m.call = 0; e = safe(ty, 2); m.call = c0; }
      Var *v = decl(1, ty); v->is_const = k; v->cexpr = e;
      p.globals.push_back(v);
    }
    for (unsigned n = mode == FUNCS && m.fns ? r.u(20) : r.u(m.fns + 1); n; --n) func(pre + "f" + std::to_string(++uid) + (r.coin() ? "_fn" : ""), int(many(3)));
    func("main", 0);
    return p;
  }
  E *leaf1(int ty) { auto s = scopes; scopes.clear(); E *e = leaf(ty); scopes = s; return e; }
  void func(const std::string &n, int na) {
    Fn *f = new Fn; f->name = n; used.insert(n);
    push();
    for (int i = 0; i < na; ++i) f->args.push_back(decl(2, r.u(4) ? 0 : rty()));
    push();
    if (mode == DECLS && r.u(4) == 0) for (unsigned q = 100 + r.u(250); q; --q) { S *s = ms(S_VAR); s->a = ilit(rint()); s->v = decl(0, 0); f->body.push_back(s); }
    body(f->body, 1 + int(r.u(m.stm + 2)) + (mode == DECLS ? int(r.u(30)) : 0), m.blocks);
    if (r.u(6)) { S *s = ms(S_RET); s->a = safe(n == "main" ? int(r.u(4)) : 0, m.depth); f->body.push_back(s); }
    pop();
    pop();
    p.fns.push_back(f);
  }
};

// ---- running the real thing ---------------------------------------------------------------------------------------
static std::vector<std::string> *OUT;
static program_t *CURP;
static std::string showv(const value_t *v, int d = 0) {
  if (!v) return "none";
  char b[64];
  switch (v->type()) {
  case val_type_int: snprintf(b, 64, "i%d", v->v); return b;
  case val_type_float: snprintf(b, 64, v->f != v->f ? "fnan" : "f%a", v->f); return b;
  case val_type_string: return "s" + std::string(v->string(), v->strlen());
  case val_type_array: { if (d > 4) return "[...]"; std::string s = "["; for (int i = 0; i < v->array_size(); ++i) s += showv(v->array()[i], d + 1) + ","; return s + "]"; }
  case val_type_func: for (auto &f : CURP->functions()) if (f.code_start_ == v->v && f.code_end_ > v->v) return "F" + f.name_; return "F?";
  case val_type_syscall: return v->v >= 0 && v->v < int(CURP->syscalls().size()) ? "Y" + CURP->syscalls()[v->v].name_ : "Y?";
  default: return "none";
  }
}
static void s_out(thread_t &t, int32_t n) { if (n != 1) { t.raise_error(thread_error_t::e_bad_num_args); return; } OUT->push_back(showv(t.get_stack().pop())); t.get_stack().push_int(int(OUT->size())); }
static void s_two(thread_t &t, int32_t n) { if (n != 2) { t.raise_error(thread_error_t::e_bad_num_args); return; } value_t *b = t.get_stack().pop(), *a = t.get_stack().pop(); OUT->push_back("2:" + showv(a) + "/" + showv(b)); t.get_stack().push(a); }
static void s_any(thread_t &t, int32_t n) { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(showv(t.get_stack().pop())); std::string s = "any"; for (int i = n; i-- > 0;) s += "/" + v[i]; OUT->push_back(s); t.get_stack().push_int(n); }
static std::string errname(thread_error_t e) {
  switch (e) {
  case thread_error_t::e_success: return "";
  case thread_error_t::e_bad_type_operation: return "type";
  case thread_error_t::e_bad_divide_by_zero: return "div0";
  case thread_error_t::e_bad_array_object: return "arrobj";
  case thread_error_t::e_bad_array_index: return "arridx";
  case thread_error_t::e_bad_array_bounds: return "bounds";
  case thread_error_t::e_bad_member_access: return "member";
  case thread_error_t::e_bad_num_args: return "nargs";
  case thread_error_t::e_bad_argument: return "arg";
  default: return "error" + std::to_string(int(e));
  }
}
struct Result { bool compiled = false; std::string cerr; int cline = 0; std::string err; int line = -1; std::string ret; std::vector<std::string> out; bool timeout = false; std::map<std::string, std::string> globals; };

static const std::vector<std::pair<std::string, std::pair<int, nano_syscall_t>>> SYS = {{"out", {1, s_out}}, {"two", {2, s_two}}, {"any", {-1, s_any}}};

static void exec(program_t &p, Result &r) {
  OUT = &r.out;
  CURP = &p;
  vm_t vm{p};
  if (!vm.call_init()) { r.err = "init"; return; }
  const function_t *f = p.function_find("main");
  EXPECT(f, "main is not in the program");
  thread_t *t = vm.new_thread(*f, 0, nullptr);
  EXPECT(t, "main cannot be started");
  for (int k = 0; k < 400 && !t->finished(); ++k) t->resume(1000);
  if (!t->finished()) { r.timeout = true; return; }
  r.err = errname(t->get_error());
  if (r.err.empty()) r.ret = showv(t->get_stack().peek());
  for (auto &g : p.globals()) if (size_t(g.offset_) < vm.g_.size()) r.globals[g.name_] = showv(vm.g_[g.offset_]);
}
static Result real(const std::string &text, bool opt) {
  Result r;
  Script s(text, opt, SYS);
  r.compiled = s.ok;
  r.cerr = s.err;
  r.cline = s.line;
  if (s.ok) exec(s.prog, r);
  return r;
}
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + "; "; return s; }

// compare the reference meaning with what the real compiler and machine do; true when the case counted
static bool compare(Prog &p, const char *what, std::function<Result(const std::string &)> run) {
  describe("%s", p.text.c_str());
  Ref ref(p);
  std::string err, ret;
  try { ref.init(); } catch (Err &) { return false; } catch (Fuel &) { return false; }
  try { V v = ref.call(p.fns.back(), {}); ret = show(v); } catch (Err &e) { err = e.code; } catch (Fuel &) { return false; }
  Result r = run(p.text);
  EXPECT(r.compiled, "%s: valid program rejected: %s (line %d)", what, r.cerr.c_str(), r.cline);
  EXPECT(!r.timeout, "%s: the program does not end", what);
  EXPECT(r.out == ref.out, "%s: observed [%s] expected [%s] (error '%s' expected '%s')", what, join(r.out).c_str(), join(ref.out).c_str(), r.err.c_str(), err.c_str());
  EXPECT(r.err == err, "%s: ends with error '%s', expected '%s'", what, r.err.c_str(), err.c_str());
  if (err.empty()) EXPECT(r.ret == ret, "%s: main returns %s, expected %s", what, r.ret.c_str(), ret.c_str());
  for (auto *g : p.globals) if (!g->is_const) { std::string w = show(ref.glob[g]); EXPECT(r.globals[g->name] == w, "%s: global %s ends as %s, expected %s", what, g->name.c_str(), r.globals[g->name].c_str(), w.c_str()); }
  return true;
}
static Prog generate(Rng &r, Mix m, Style st) { Gen g(r, m); Prog p = g.make(); Printer pr(r, st); pr.prog(p); return p; }

}  // namespace lang
