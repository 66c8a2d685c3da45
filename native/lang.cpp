// Native oracle: random whole programs, real compiler + machine against the reference interpreter.
#include <fstream>
#include <fcntl.h>
#include <sys/stat.h>
#include "lang.h"
using namespace lang;

static Result on(const std::string &t) { return real(t, true); }
static Result off(const std::string &t) { return real(t, false); }

static void g_expr(Rng &r, long) { Mix m; m.depth = 5; m.stm = 2; m.lit = 1; m.unary = 3; m.blocks = 0; m.fns = 1; m.bad = 0; Style s; s.parens = r.u(3) == 0; s.noisy = r.u(4) == 0; Prog p = generate(r, m, s); compare(p, "expression", r.coin() ? on : off); }
static void g_flow(Rng &r, long) { Mix m; m.depth = 2; m.stm = 5; m.blocks = 4; Prog p = generate(r, m, Style()); compare(p, "program", r.coin() ? on : off); }
static void g_full(Rng &r, long) { Mix m; Style s; s.noisy = r.coin(); s.parens = r.coin(); s.cases = r.coin(); Prog p = generate(r, m, s); compare(p, "program", on); compare(p, "unoptimised program", off); }

// ---- constant evaluation and dead code --------------------------------------------------------------------------------
static S *call1(const char *n, E *a) { S *s = new S; s->k = S_CALL; E *e = new E; e->k = K_CALL; E *f = new E; f->k = K_SYS; f->s = n; e->c = {f, a}; s->a = e; return s; }
static void g_fold(Rng &r, long) {
  Mix m; m.depth = 3; m.lit = 2; m.novar = 4 + int(r.u(6)); m.blocks = 3; m.stm = 4; m.dead = int(r.u(2)); m.unary = 3; m.arr = int(r.u(2)); m.str = int(r.u(2)); m.flt = int(r.u(2));
  Gen g(r, m);
  Prog p = g.make();
  if (r.u(6) == 0) {  // a division by a constant zero is rejected where it stands
    E *d = new E; d->k = K_BIN; d->op = r.coin() ? O_DIV : O_MOD;
    E *z = g.ilit(0);
    if (r.u(3) == 0) { z = new E; z->k = K_BIN; z->op = O_SUB; const int32_t k = g.rint(); z->c = {g.ilit(k), g.ilit(k)}; }
    d->c = {g.ilit(g.rint()), z};
    Fn *f = r.pick(p.fns);
    S *s = call1("out", d);
    if (r.coin()) { s = new S; s->k = S_VAR; s->v = new Var; s->v->name = "qq_z"; s->v->kind = 0; s->v->ty = 0; s->a = d; }
    f->body.insert(f->body.begin() + r.u(2) % (f->body.size() + 1) * 0, s);
    Printer pr(r, Style()); pr.prog(p);
    describe("%s", p.text.c_str());
    Script q(p.text, true, SYS);
    EXPECT(!q.ok, "a division by a constant zero is accepted");
    EXPECT(q.line == s->line, "division by a constant zero reported on line %d, it is on line %d (%s)", q.line, s->line, q.err.c_str());
    return;
  }
  Printer pr(r, Style()); pr.prog(p);
  compare(p, "optimised program", on);
  compare(p, "unoptimised program", off);
}

// ---- names ------------------------------------------------------------------------------------------------------------
struct Site { int kind; E *e = nullptr; S *s = nullptr; std::vector<S *> *b = nullptr; size_t at = 0; std::set<std::string> vis, dup; };
struct Walk {
  Prog &p;
  std::vector<Site> sites;
  std::set<std::string> vis, dup, all;
  Walk(Prog &p) : p(p) {
    for (auto *g : p.globals) vis.insert(g->name), all.insert(g->name);
    for (auto *f : p.fns) vis.insert(f->name), all.insert(f->name);
    for (auto *n : SYSN) { vis.insert(n); dup.insert(n); }
    for (auto *g : p.globals) { if (g->cexpr && !g->is_const) expr(g->cexpr); dup.insert(g->name); }
    for (auto *f : p.fns) {
      dup.insert(f->name);
      auto v0 = vis, d0 = dup;
      for (auto *a : f->args) { add(a->name); }
      block(f->body);
      vis = v0; dup = d0;
    }
  }
  void add(const std::string &n) { vis.insert(n); dup.insert(n); all.insert(n); }
  void put(int k, E *e, S *s) { Site t; t.kind = k; t.e = e; t.s = s; t.vis = vis; sites.push_back(t); }
  void expr(E *e) { if (e->k == K_VAR || e->k == K_LEN) put(0, e, nullptr); if (e->k == K_CALL) put(3, e, nullptr); for (auto *c : e->c) expr(c); }
  void pos(std::vector<S *> &b, size_t i) { Site t; t.kind = 2; t.b = &b; t.at = i; t.vis = vis; t.dup = dup; sites.push_back(t); }
  void block(std::vector<S *> &b) {
    auto v0 = vis, d0 = dup;
    pos(b, 0);
    for (size_t i = 0; i < b.size(); ++i) {
      S *s = b[i];
      if (s->a) expr(s->a);
      if (s->b) expr(s->b);
      if (s->k == S_ASSIGN || s->k == S_COMP || s->k == S_SETIDX || s->k == S_FOR) put(1, nullptr, s);
      if (s->k == S_IF || s->k == S_WHILE || s->k == S_FOR) block(s->t);
      if (s->has_else) block(s->e);
      if (s->k == S_VAR) add(s->v->name);
      if (s->k != S_RET) pos(b, i + 1);
    }
    vis = v0; dup = d0;
  }
};
static void g_names(Rng &r, long) {
  Mix m; m.stm = 4; m.blocks = 3; m.bad = 0; m.fns = 2;
  Gen g(r, m);
  Prog p = g.make();
  Walk w(p);
  const unsigned what = r.u(9);
  std::string name, why;
  int *line = nullptr, shift = 0;
  auto var = [&](const std::string &n) { Var *v = new Var; v->name = n; v->kind = 0; v->ty = 0; return v; };
  auto outside = [&](const std::set<std::string> &vis) { std::vector<std::string> c; for (auto &n : w.all) if (!vis.count(n)) c.push_back(n); return c.empty() || r.u(3) == 0 ? std::string("zq_unknown") : r.pick(c); };
  auto pick = [&](int k) -> Site * { std::vector<Site *> c; for (auto &s : w.sites) if (s.kind == k) c.push_back(&s); return c.empty() ? nullptr : r.pick(c); };
  int extra = 0;
  if (what == 0) { Site *s = pick(0); if (!s) return; name = outside(s->vis); s->e->v = var(name); line = &s->e->line; why = "use of a name that is not visible"; }
  else if (what == 1) { Site *s = pick(1); if (!s) return; name = outside(s->vis); s->s->v = var(name); line = &s->s->line; why = "assignment to a name that is not visible"; }
  else if (what == 2) { Site *s = pick(1); if (!s) return; name = r.coin() ? r.pick(p.fns)->name : SYSN[r.u(5)]; s->s->v = var(name); line = &s->s->line; why = "assignment to a function"; }
  else if (what == 3 || what == 4) {
    Site *s = pick(2); if (!s) return;
    std::vector<std::string> c(s->dup.begin(), s->dup.end());
    name = r.pick(c);
    S *d = new S; d->k = S_VAR; d->v = var(name); if (r.coin()) d->a = g.ilit(1);
    s->b->insert(s->b->begin() + s->at, d); line = &d->line; why = "declaration of a name that is already declared";
  } else if (what == 5) {
    Site *s = pick(3); if (!s) return;
    E *c = s->e, *f = c->c[0];
    if (f->k == K_SYS && f->s == "any") return;
    if (f->k == K_VAR) return;
    name = f->k == K_SYS ? f->s : f->fn->name;
    if (c->c.size() > 1 && r.coin()) { c->c.pop_back(); why = "call with too few arguments"; } else { c->c.push_back(g.ilit(3)); why = "call with too many arguments"; }
    line = &c->line;
    extra = 1;
  } else if (what == 6) {
    std::vector<Var *> c; for (auto *v : p.globals) if (v->is_const) c.push_back(v);
    if (c.empty()) return;
    Site *s = pick(2); if (!s) return;
    Var *v = r.pick(c);
    S *d = new S; d->v = v; d->a = g.ilit(1); d->b = g.ilit(2);
    static const int ks[] = {S_ASSIGN, S_COMP, S_SETIDX, S_FOR};
    d->k = ks[r.u(4)]; d->op = O_ADD; if (d->k == S_ASSIGN || d->k == S_COMP) d->b = nullptr;
    s->b->insert(s->b->begin() + s->at, d); line = &d->line; name = v->name; why = "assignment to a constant";
  } else if (what == 7) {
    Fn *f = new Fn; f->body.clear();
    if (r.coin()) { f->name = r.pick(p.fns)->name; name = f->name; why = "second function of the same name"; }
    else { f->name = "zq_f"; Var *a = var("zq_a"), *b = var("zq_a"); f->args = {a, b}; if (r.coin()) { std::vector<std::string> c; for (auto *q : p.globals) c.push_back(q->name); for (auto *q : p.fns) c.push_back(q->name); a->name = r.pick(c); f->args = {a}; } name = a->name; why = "argument of a name that is already declared"; }
    p.fns.push_back(f); line = &f->line;
  } else {
    Var *v = var("zq_g"); v->kind = 1; v->is_const = r.coin(); if (!v->is_const) { v->name = p.globals.empty() ? r.pick(p.fns)->name : r.pick(p.globals)->name; v->cexpr = g.ilit(4); why = "global of a name that is already declared"; } else why = "constant without a value";
    name = v->name;
    Fn *f = new Fn; (void)f;
    p.globals.push_back(v);
    static int gl; gl = int(p.globals.size()); line = &gl;
    bool fn = false; for (auto *q : p.fns) if (q->name == v->name) fn = true;
    if (fn) { for (auto *q : p.fns) if (q->name == v->name) line = &q->line; }
  }
  (void)shift;
  Style st; st.noisy = false;
  Printer pr(r, st); pr.prog(p);
  if (extra && !*line) { for (auto &s : w.sites) if (s.kind == 2) for (auto *x : *s.b) if (x->a && x->a->line == 0 && x->k == S_CALL) x->a->line = x->line; }
  describe("%s\n%s '%s' line %d", p.text.c_str(), why.c_str(), name.c_str(), *line);
  for (int opt = 0; opt < 2; ++opt) {
    Script q(p.text, opt, SYS);
    EXPECT(!q.ok, "accepted: %s '%s' on line %d", why.c_str(), name.c_str(), *line);
    if (why.find("already declared") != std::string::npos && q.err.find("already exists") == std::string::npos) continue;  // the clash can show in another way first
    EXPECT(q.line == *line, "%s '%s' on line %d is reported on line %d: %s", why.c_str(), name.c_str(), *line, q.line, q.err.c_str());
    EXPECT(q.err.find("'" + name + "'") != std::string::npos, "%s '%s' is reported as: %s", why.c_str(), name.c_str(), q.err.c_str());
  }
}

// ---- tokens -----------------------------------------------------------------------------------------------------------
struct Tk { token_e t; std::string s; int32_t i = 0; double f = 0; bool approx = false; int line = 0; };
static const struct { const char *s; token_e t; } WORDS[] = {{"and", TOK_AND}, {"const", TOK_CONST}, {"end", TOK_END}, {"else", TOK_ELSE}, {"for", TOK_FOR}, {"function", TOK_FUNC}, {"if", TOK_IF}, {"import", TOK_IMPORT}, {"not", TOK_NOT}, {"none", TOK_NONE}, {"or", TOK_OR}, {"return", TOK_RETURN}, {"to", TOK_TO}, {"var", TOK_VAR}, {"while", TOK_WHILE}},
  MARKS[] = {{"(", TOK_LPAREN}, {")", TOK_RPAREN}, {"[", TOK_LBRACKET}, {"]", TOK_RBRACKET}, {",", TOK_COMMA}, {"+", TOK_ADD}, {"-", TOK_SUB}, {"*", TOK_MUL}, {"/", TOK_DIV}, {"%", TOK_MOD}, {"=", TOK_ASSIGN}, {"==", TOK_EQ}, {"<", TOK_LT}, {"<=", TOK_LEQ}, {">", TOK_GT}, {">=", TOK_GEQ}, {".", TOK_DOT}};
static void g_lex(Rng &r, long) {
  std::string o;
  std::vector<Tk> want;
  int line = 1;
  const int file = int(r.u(3));
  bool word = false;   // the text so far ends in a word or number
  char last = 0;
  const int bad = r.u(8) == 0 ? int(r.u(30)) : -1;
  int badline = -1;
  std::string badwhy;
  for (int n = int(r.u(40)), k = 0; k < n; ++k) {
    if (k == bad) {
      badline = line;
      if (r.coin()) { int ch; do ch = 1 + int(r.u(255)); while (isalnum(ch) || strchr("_ \t\r\n\"#()[],+-*/%=<>.", ch)); if (r.coin()) ch = "\v\f!@$&;:?^'\\\x80\xff\x01"[r.u(15)]; o += " "; o += char(ch); o += " "; badwhy = "a character that starts no token"; }
      else { o += " \"abc"; if (r.coin()) { o += "\n"; if (r.coin()) o += "x\" + 1\n"; } badwhy = "a string that is not closed on its line"; }
      break;
    }
    const unsigned c = r.u(12);
    Tk t;
    std::string s;
    bool w = false;
    if (c < 3) { auto &x = WORDS[r.u(15)]; s = x.s; t.t = x.t; w = true; for (auto &ch : s) if (r.u(6) == 0) ch = char(toupper(ch)); }
    else if (c < 5) {
      w = true; t.t = TOK_IDENT;
      static const char A[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_", N[] = "abcefnorwtyzAZ_0123456789";
      if (r.u(3)) { s += A[r.u(53)]; for (unsigned q = r.u(9) ? r.u(7) : r.u(r.coin() ? 150 : 1200); q; --q) s += N[r.u(25)]; }
      else { s = WORDS[r.u(15)].s; if (r.coin()) s += N[r.u(25)]; else if (r.coin()) s = "_" + s; else { s.pop_back(); } }
      std::string low = s; for (auto &ch : low) ch = char(tolower(ch));
      for (auto &x : WORDS) if (low == x.s) { t.t = x.t; }
      if (s.empty()) continue;
      t.s = t.t == TOK_IDENT ? s : "";
    } else if (c < 7) {
      w = true;
      const int len = 1 + int(r.u(r.u(4) ? 5 : 12));
      uint32_t v = 0;
      for (int q = 0; q < len; ++q) { char d = char('0' + r.u(10)); s += d; v = v * 10 + (d - '0'); }
      if (r.coin()) { t.t = TOK_INT; t.i = int32_t(v); }
      else { s += '.'; int fl = int(r.u(r.u(4) ? 4 : 12)); for (int q = 0; q < fl; ++q) s += char('0' + r.u(10)); t.t = TOK_FLOAT; t.f = strtod(s.c_str(), nullptr); t.approx = len + fl > 15; }
    } else if (c == 7) { t.t = TOK_STRING; s = "\""; for (unsigned q = r.u(9) ? r.u(8) : r.u(r.coin() ? 150 : 3000); q; --q) { char ch = char(r.u(8) ? 32 + r.u(95) : 128 + r.u(100)); if (ch == '"') ch = '#'; t.s += ch; } s += t.s + "\""; }
    else { auto &x = MARKS[r.u(17)]; s = x.s; t.t = x.t; }
    // keep apart what would read as one token
    bool sep = (word && w) || ((last == '=' || last == '<' || last == '>') && s[0] == '=') || (word && s[0] == '.');
    if (sep || r.u(3) == 0) { do { static const char *W[] = {" ", "\t", "\r", "  "}; o += W[r.u(4)]; } while (r.u(4) == 0); }
    t.line = line;
    o += s;
    want.push_back(t);
    word = w; last = s == "==" || s == "<=" || s == ">=" ? 0 : s.back();
    if (r.u(6) == 0) {
      if (r.u(3) == 0) { o += " # comment \"q\" and + 12"; if (r.u(4) == 0) { o += "\n"; } else o += "\n"; }
      else o += "\n";
      Tk e; e.t = TOK_EOL; e.line = line++;
      want.push_back(e);
      word = false; last = 0;
    }
  }
  if (badline < 0 && r.u(6) == 0) { o += "# last"; Tk e; e.t = TOK_EOL; e.line = line++; want.push_back(e); }
  describe("%s", o.c_str());
  program_t pg;
  nano_t n{pg};
  n.lexer_.emplace_back(new lexer_t(n));
  bool ok = false, thrown = false;
  nano::error_t err;
  char *copy = (char *)malloc(o.size() + 1);
  memcpy(copy, o.c_str(), o.size() + 1);
  try { ok = n.lexer().lex(copy, file); } catch (const nano::error_t &e) { thrown = true; err = e; }
  free(copy);
  if (badline >= 0) {
    EXPECT(thrown || !ok, "%s on line %d is accepted", badwhy.c_str(), badline);
    EXPECT(thrown, "%s is not reported", badwhy.c_str());
    EXPECT(err.line.line == badline && err.line.file == file, "%s on line %d is reported on line %d", badwhy.c_str(), badline, err.line.line);
    return;
  }
  EXPECT(ok && !thrown, "valid text rejected: %s (line %d)", err.error.c_str(), err.line.line);
  Tk e; e.t = TOK_EOF; e.line = line; want.push_back(e);
  auto &got = n.lexer().stream().stream_;
  for (size_t i = 0; i < want.size() && i < got.size(); ++i) {
    const token_t &g = got[i];
    const Tk &w = want[i];
    EXPECT(g.type_ == w.t, "token %zu is of kind %d, expected %d '%s'", i, int(g.type_), int(w.t), w.s.c_str());
    EXPECT(g.line_.line == w.line && g.line_.file == file, "token %zu (kind %d) is on line %d of file %d, reported line %d of file %d", i, int(w.t), w.line, file, g.line_.line, g.line_.file);
    if (w.t == TOK_IDENT || w.t == TOK_STRING) EXPECT(g.str_ == w.s, "token %zu reads '%s', expected '%s'", i, g.str_.c_str(), w.s.c_str());
    if (w.t == TOK_INT) EXPECT(g.val_ == w.i, "token %zu is %d, expected %d", i, g.val_, w.i);
    if (w.t == TOK_FLOAT) { if (w.approx) EXPECT(std::fabs(g.valf_ - w.f) <= std::fabs(w.f) * 1e-6, "token %zu is %g, expected %g", i, g.valf_, w.f); else EXPECT(g.valf_ == float(w.f), "token %zu is %g, expected %g", i, g.valf_, w.f); }
  }
  EXPECT(got.size() == want.size(), "%zu tokens, expected %zu", got.size(), want.size());
}

// ---- damaged programs ---------------------------------------------------------------------------------------------------
static void damage(Rng &r, std::string &text) {
  // split in rough tokens
  std::vector<std::string> tk;
  for (size_t i = 0; i < text.size();) {
    size_t j = i + 1;
    if (isalnum((unsigned char)text[i]) || text[i] == '_') while (j < text.size() && (isalnum((unsigned char)text[j]) || text[j] == '_')) ++j;
    else if (text[i] == '"') { while (j < text.size() && text[j] != '"') ++j; if (j < text.size()) ++j; }
    tk.push_back(text.substr(i, j - i));
    i = j;
  }
  static const char *ins[] = {"(", ")", "[", "]", ",", "+", "-", "*", "/", "%", "=", "==", "<", ".", "and", "not", "none", "end", "else", "if", "while", "for", "to", "function", "var", "const", "import", "return", "1", "2.5", "\"s\"", "x", "\n", "main", "out", "\"", "#", "!", "0", "- -", "not not", ". length"};
  for (unsigned n = 1 + r.u(3); n; --n) {
    if (tk.empty()) break;
    const size_t at = r.u(uint32_t(tk.size()));
    switch (r.u(6)) {
    case 0: tk.erase(tk.begin() + at); break;
    case 1: tk.insert(tk.begin() + at, tk[at]); break;
    case 2: tk.insert(tk.begin() + at, std::string(" ") + ins[r.u(42)] + " "); break;
    case 3: tk[at] = std::string(" ") + ins[r.u(42)] + " "; break;
    case 4: std::swap(tk[at], tk[r.u(uint32_t(tk.size()))]); break;
    default: if (r.u(3) == 0) tk.resize(at); else tk.erase(tk.begin() + at, tk.begin() + std::min(tk.size(), at + r.u(5)));
    }
  }
  text.clear();
  for (auto &s : tk) text += s;
}
// @init of a program that may never end
static bool some_init(vm_t &vm, program_t &pg) {
  const function_t *f = pg.function_find("@init");
  thread_t *t = f ? vm.new_thread(*f, 0, nullptr) : nullptr;
  for (int k = 0; t && k < 200 && !t->finished(); ++k) { t->resume(20); if (t->frames().size() > 200 || vm.gc_->should_collect()) return false; }
  return t && t->finished() && !t->has_error();
}

static void g_reject(Rng &r, long) {
  Mix m; m.stm = 3; m.blocks = 2; m.fns = 2;
  Style st; st.noisy = r.u(3) == 0;
  Prog p = generate(r, m, st);
  std::string t = p.text;
  damage(r, t);
  describe("%s", t.c_str());
  int lines = 1;
  for (char c : t) lines += c == '\n';
  for (int opt = 0; opt < 2; ++opt) {
    Script q(t, opt, SYS);
    if (!q.ok) {
      if (t.empty()) continue;
      EXPECT(!q.err.empty(), "rejected without a message");
      EXPECT(q.line >= 1 && q.line <= lines + 1, "rejected on line %d of %d: %s", q.line, lines, q.err.c_str());
      continue;
    }
    Result res;
    OUT = &res.out; CURP = &q.prog;
    vm_t vm{q.prog};
    if (!some_init(vm, q.prog)) continue;
    const function_t *f = q.prog.function_find("main");
    if (!f || f->num_args()) continue;
    thread_t *th = vm.new_thread(*f, 0, nullptr);
    bool rec = false;
    for (int k = 0; k < 200 && !th->finished() && !rec; ++k) { th->resume(20); rec = th->frames().size() > 200 || vm.gc_->should_collect(); }
  }
}

// ---- the grammar ----------------------------------------------------------------------------------------------------------
// an independent reader of the grammar (precedence climbing) over the tokens of the text; both trees are written out and compared
struct Gram {
  const std::vector<token_t> &t;
  size_t p = 0;
  Gram(const std::vector<token_t> &t) : t(t) {}
  struct Bad { size_t at; };
  token_e k() const { return t[p].type_; }
  bool at(std::initializer_list<token_e> l) const { for (auto x : l) if (k() == x) return true; return false; }
  size_t need(token_e x) { if (k() != x) throw Bad{p}; return p++; }
  bool found(token_e x) { if (k() != x) return false; ++p; return true; }
  static std::string n(size_t i) { return std::to_string(i); }
  void eol() { need(TOK_EOL); while (found(TOK_EOL)) {} }
  static int level(token_e x) {
    switch (x) {
    case TOK_AND: case TOK_OR: return 1;
    case TOK_LT: case TOK_GT: case TOK_LEQ: case TOK_GEQ: case TOK_EQ: return 3;
    case TOK_ADD: case TOK_SUB: return 4;
    case TOK_MUL: case TOK_DIV: case TOK_MOD: return 5;
    default: return 0;
    }
  }
  std::string list(token_e close) { std::string s; do s += " " + expr(1); while (found(TOK_COMMA)); need(close); return s; }
  std::string call(const std::string &f) { size_t i = need(TOK_LPAREN); std::string s = "(call " + n(i) + " " + f + ":"; if (!found(TOK_RPAREN)) s += list(TOK_RPAREN); return s + ")"; }
  std::string operand() {
    if (at({TOK_SUB})) {
      size_t i = p++;
      if (at({TOK_NOT})) { size_t j = p++; return "(un " + n(i) + " (un " + n(j) + " " + operand() + "))"; }
      return "(un " + n(i) + " " + operand() + ")";
    }
    std::string s;
    size_t i = p;
    switch (k()) {
    case TOK_LBRACKET: ++p; s = "(array " + n(i) + list(TOK_RBRACKET) + ")"; break;
    case TOK_LPAREN: ++p; s = expr(1); need(TOK_RPAREN); break;
    case TOK_IDENT: ++p; if (found(TOK_DOT)) { size_t m = need(TOK_IDENT); s = "(member " + n(i) + " " + n(m) + ")"; } else s = "(name " + n(i) + ")"; break;
    case TOK_INT: ++p; s = "(int " + n(i) + ")"; break;
    case TOK_FLOAT: ++p; s = "(float " + n(i) + ")"; break;
    case TOK_STRING: ++p; s = "(string " + n(i) + ")"; break;
    case TOK_NONE: ++p; s = "(none " + n(i) + ")"; break;
    default: throw Bad{p};
    }
    for (;;) {
      if (at({TOK_LBRACKET})) { size_t j = p++; std::string x = expr(1); need(TOK_RBRACKET); s = "(index " + n(j) + " " + s + " " + x + ")"; }
      else if (at({TOK_LPAREN})) s = call(s);
      else return s;
    }
  }
  std::string expr(int min) {
    std::string l;
    if (at({TOK_NOT})) { size_t i = p++; l = "(un " + n(i) + " " + expr(3) + ")"; }
    else l = operand();
    while (level(k()) >= min) { size_t i = p++; l = "(bin " + n(i) + " " + std::to_string(int(t[i].type_)) + " " + l + " " + expr(level(t[i].type_) + 1) + ")"; }
    return l;
  }
  std::string block(std::initializer_list<token_e> stop) { std::string s = "{"; while (!at(stop)) s += stmt(); return s + "}"; }
  std::string decl(const char *kind) { size_t i = need(TOK_IDENT); return std::string("(") + kind + " " + n(i) + (found(TOK_ASSIGN) ? " " + expr(1) : "") + ")"; }
  std::string stmt() {
    while (found(TOK_EOL)) {}
    size_t i = p;
    std::string s;
    switch (k()) {
    case TOK_VAR: ++p; s = decl("local"); break;
    case TOK_RETURN: ++p; s = "(return " + n(i) + (at({TOK_EOL}) ? "" : " " + expr(1)) + ")"; break;
    case TOK_IF: {
      ++p; need(TOK_LPAREN); std::string c = expr(1); need(TOK_RPAREN); eol();
      s = "(if " + n(i) + " " + c + " " + block({TOK_END, TOK_ELSE});
      if (found(TOK_ELSE)) { eol(); s += block({TOK_END}); }
      need(TOK_END); s += ")"; break;
    }
    case TOK_WHILE: { ++p; need(TOK_LPAREN); std::string c = expr(1); need(TOK_RPAREN); eol(); s = "(while " + n(i) + " " + c + " " + block({TOK_END}) + ")"; need(TOK_END); break; }
    case TOK_FOR: {
      ++p; need(TOK_LPAREN); size_t v = need(TOK_IDENT); need(TOK_ASSIGN); std::string a = expr(1); need(TOK_TO); std::string b = expr(1); need(TOK_RPAREN); eol();
      s = "(for " + n(i) + " " + n(v) + " " + a + " " + b + " " + block({TOK_END}) + ")"; need(TOK_END); break;
    }
    case TOK_IDENT:
      ++p;
      switch (k()) {
      case TOK_ADD: case TOK_SUB: case TOK_MUL: case TOK_DIV: { size_t o = p++; need(TOK_ASSIGN); s = "(assign " + n(i) + " (bin " + n(o) + " " + std::to_string(int(t[o].type_)) + " (name " + n(i) + ") " + expr(1) + "))"; break; }
      case TOK_DOT: { ++p; size_t m = need(TOK_IDENT); need(TOK_ASSIGN); s = "(setmember " + n(i) + " " + n(m) + " " + expr(1) + ")"; break; }
      case TOK_ASSIGN: ++p; s = "(assign " + n(i) + " " + expr(1) + ")"; break;
      case TOK_LPAREN: s = "(do " + call("(name " + n(i) + ")") + ")"; break;
      case TOK_LBRACKET: { ++p; std::string x = expr(1); need(TOK_RBRACKET); need(TOK_ASSIGN); s = "(setindex " + n(i) + " " + x + " " + expr(1) + ")"; break; }
      default: throw Bad{p};
      }
      break;
    default: throw Bad{p};
    }
    eol();
    return s;
  }
  std::string program() {
    std::string s;
    for (;;) {
      size_t i = p;
      switch (k()) {
      case TOK_EOF: return s;
      case TOK_EOL: ++p; break;
      case TOK_VAR: ++p; s += decl("global"); break;
      case TOK_CONST: ++p; s += decl("const"); break;
      case TOK_FUNC: {
        ++p; i = need(TOK_IDENT); need(TOK_LPAREN); s += "(function " + n(i) + " " + t[i].str_ + " (";
        if (!found(TOK_RPAREN)) { do s += "(arg " + n(need(TOK_IDENT)) + ")"; while (found(TOK_COMMA)); need(TOK_RPAREN); }
        eol(); s += ") " + block({TOK_END}); s += " " + n(need(TOK_END)) + ")"; break;
      }
      case TOK_IMPORT: ++p; throw Bad{need(TOK_STRING)};   // there is nothing to import here
      default: throw Bad{p};
      }
    }
  }
};

struct Tree {
  const token_t *base;
  size_t count;
  std::string n(const token_t *x) { if (!x) return "null"; if (x < base || x >= base + count) return "stray"; return std::to_string(x - base); }
  std::string blk(ast_node_t *b) { if (!b) return "nil"; if (!b->is_a<ast_block_t>()) return "?"; std::string s = "{"; for (auto *x : b->cast<ast_block_t>()->nodes) s += d(x); return s + "}"; }
  std::string opt(ast_node_t *x) { return x ? " " + d(x) : ""; }
  std::string d(ast_node_t *x) {
    if (!x) return "nil";
    if (x->is_a<ast_exp_ident_t>()) return "(name " + n(x->cast<ast_exp_ident_t>()->name) + ")";
    if (x->is_a<ast_exp_lit_var_t>()) { auto *y = x->cast<ast_exp_lit_var_t>(); return y->token && y->val == y->token->val_ ? "(int " + n(y->token) + ")" : "(int?)"; }
    if (x->is_a<ast_exp_lit_float_t>()) { auto *y = x->cast<ast_exp_lit_float_t>(); return y->token && !(y->val != y->token->valf_ && y->val == y->val) ? "(float " + n(y->token) + ")" : "(float?)"; }
    if (x->is_a<ast_exp_lit_str_t>()) { auto *y = x->cast<ast_exp_lit_str_t>(); return y->token && y->value == y->token->str_ ? "(string " + n(y->token) + ")" : "(string?)"; }
    if (x->is_a<ast_exp_none_t>()) return "(none " + n(x->cast<ast_exp_none_t>()->token) + ")";
    if (x->is_a<ast_exp_member_t>()) { auto *y = x->cast<ast_exp_member_t>(); return "(member " + n(y->name) + " " + n(y->member) + ")"; }
    if (x->is_a<ast_exp_array_init_t>()) { auto *y = x->cast<ast_exp_array_init_t>(); std::string s = "(array " + n(y->name); for (auto *z : y->expr) s += " " + d(z); return s + ")"; }
    if (x->is_a<ast_exp_deref_t>()) { auto *y = x->cast<ast_exp_deref_t>(); return "(index " + n(y->token) + " " + d(y->lhs) + " " + d(y->index) + ")"; }
    if (x->is_a<ast_exp_call_t>()) { auto *y = x->cast<ast_exp_call_t>(); std::string s = "(call " + n(y->token) + " " + d(y->callee) + ":"; for (auto *z : y->args) s += " " + d(z); return s + ")"; }
    if (x->is_a<ast_exp_bin_op_t>()) { auto *y = x->cast<ast_exp_bin_op_t>(); return "(bin " + n(y->token) + " " + std::to_string(int(y->op)) + " " + d(y->left) + " " + d(y->right) + ")"; }
    if (x->is_a<ast_exp_unary_op_t>()) { auto *y = x->cast<ast_exp_unary_op_t>(); return "(un " + n(y->op) + " " + d(y->child) + ")"; }
    if (x->is_a<ast_stmt_call_t>()) return "(do " + d(x->cast<ast_stmt_call_t>()->expr) + ")";
    if (x->is_a<ast_stmt_if_t>()) { auto *y = x->cast<ast_stmt_if_t>(); return "(if " + n(y->token) + " " + d(y->expr) + " " + blk(y->then_block) + (y->else_block ? blk(y->else_block) : "") + ")"; }
    if (x->is_a<ast_stmt_while_t>()) { auto *y = x->cast<ast_stmt_while_t>(); return "(while " + n(y->token) + " " + d(y->expr) + " " + blk(y->body) + ")"; }
    if (x->is_a<ast_stmt_for_t>()) { auto *y = x->cast<ast_stmt_for_t>(); return "(for " + n(y->token) + " " + n(y->name) + " " + d(y->start) + " " + d(y->end) + " " + blk(y->body) + ")"; }
    if (x->is_a<ast_stmt_return_t>()) { auto *y = x->cast<ast_stmt_return_t>(); return "(return " + n(y->token) + opt(y->expr) + ")"; }
    if (x->is_a<ast_stmt_assign_var_t>()) { auto *y = x->cast<ast_stmt_assign_var_t>(); return "(assign " + n(y->name) + " " + d(y->expr) + ")"; }
    if (x->is_a<ast_stmt_assign_array_t>()) { auto *y = x->cast<ast_stmt_assign_array_t>(); return "(setindex " + n(y->name) + " " + d(y->index) + " " + d(y->expr) + ")"; }
    if (x->is_a<ast_stmt_assign_member_t>()) { auto *y = x->cast<ast_stmt_assign_member_t>(); return "(setmember " + n(y->name) + " " + n(y->member) + " " + d(y->expr) + ")"; }
    if (x->is_a<ast_decl_var_t>()) { auto *y = x->cast<ast_decl_var_t>(); return std::string("(") + (y->is_const ? y->is_global() ? "const" : "const?" : y->is_local() ? "local" : y->is_arg() ? "arg" : y->is_global() ? "global" : "?") + " " + n(y->name) + opt(y->expr) + ")"; }
    if (x->is_a<ast_decl_func_t>()) { auto *y = x->cast<ast_decl_func_t>(); std::string s = "(function " + n(y->token) + " " + y->name + " ("; for (auto *z : y->args) s += d(z); return s + ") " + blk(y->body) + " " + n(y->end) + ")"; }
    return "?";
  }
};

static void g_grammar(Rng &r, long) {
  Mix m; m.stm = 3; m.blocks = 2; m.fns = 2; m.unary = 3;
  Style st; st.noisy = r.u(3) == 0; st.parens = r.u(3) == 0;
  Prog p = generate(r, m, st);
  std::string t = p.text;
  if (r.u(4)) damage(r, t);
  if (t.empty()) return;
  describe("%s", t.c_str());
  program_t pg;
  nano_t n{pg};
  source_manager_t src;
  src.load_from_string(t.c_str());
  n.sources_ = &src;
  n.source_ = &src.get_source(0);
  n.lexer_.emplace_back(new lexer_t(n));
  nano::error_t err;
  try { if (!n.lexer().lex(t.c_str(), 0)) return; } catch (const nano::error_t &) { return; }
  auto &tk = n.lexer().stream().stream_;
  Gram g(tk);
  std::string want;
  long bad = -1;
  try { want = g.program(); } catch (const Gram::Bad &b) { bad = long(b.at); }
  const bool ok = n.parser_->parse(err);
  if (bad >= 0) {
    EXPECT(!ok, "token %ld on line %d is not in the grammar but the text is accepted", bad, tk[bad].line_.line);
    EXPECT(err.line.line == tk[bad].line_.line, "goes wrong on line %d, reported on line %d: %s", tk[bad].line_.line, err.line.line, err.error.c_str());
    return;
  }
  EXPECT(ok, "rejected on line %d: %s", err.line.line, err.error.c_str());
  Tree d{tk.data(), tk.size()};
  std::string got;
  for (auto *x : n.ast().program.children) got += d.d(x);
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  i = i > 60 ? i - 60 : 0;
  EXPECT(got == want, "tree differs: ...%s expected ...%s", got.substr(i, 200).c_str(), want.substr(i, 200).c_str());
}

// ---- saved programs -----------------------------------------------------------------------------------------------------
static std::string dump(const program_t &p) {
  std::string s;
  char b[200];
  for (auto &y : p.syscalls_) s += "sys " + y.name_ + "\n";
  for (auto &f : p.functions_) {
    snprintf(b, 200, " %d..%d\n", f.code_start_, f.code_end_);
    s += "fn " + f.name_ + b;
    for (auto &i : f.args_) s += " arg " + i.name_ + " " + std::to_string(i.offset_) + "\n";
    for (auto &i : f.locals_) s += " local " + i.name_ + " " + std::to_string(i.offset_) + "\n";
  }
  s += "code ";
  for (auto c : p.code_) { snprintf(b, 200, "%02x", c); s += b; }
  s += "\n";
  for (auto &l : p.line_table_) { snprintf(b, 200, "line %d %d:%d\n", l.first, l.second.file, l.second.line); s += b; }
  for (auto &x : p.strings_) s += "str " + std::to_string(x.size()) + ":" + x + "\n";
  return s;
}
static std::string slurp(const char *f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
static std::vector<std::string> WROTE;
static void spit(const char *f, const std::string &s) { WROTE.push_back(f); std::ofstream o(f, std::ios::binary); o.write(s.data(), std::streamsize(s.size())); }
static int fds() { int n = 0; for (int i = 0; i < 256; ++i) if (fcntl(i, F_GETFD) != -1) ++n; return n; }
static void g_serial(Rng &r, long k) {
  Mix m;
  Prog p = generate(r, m, Style());
  if (r.u(3) == 0) { std::string big(r.u(3) ? 200 + r.u(400) : 3000 + r.u(70000), 'x'); p.text += "function zq_long()\n  return \"" + big + "\"\nend\n"; }
  describe("%s", p.text.c_str());
  Script a(p.text, r.coin(), SYS);
  EXPECT(a.ok, "rejected: %s", a.err.c_str());
  char path[64];
  snprintf(path, 64, "prog.%ld.bin", k);
  if (r.u(4) == 0) a.prog.strings_.push_back(std::string("a\0b", 3));
  if (r.u(3) == 0) {  // tables as programs of several files and large programs have them
    for (auto &l : a.prog.line_table_) if (r.coin()) { l.second.file = int(r.u(4)); l.second.line = int(r.u(100000)); }
    for (auto &f : a.prog.functions_) { for (auto &v : f.locals_) if (r.coin()) v.offset_ = int(r.u(200000)); for (auto &v : f.args_) if (r.coin()) v.offset_ = -1 - int(r.u(100000)); }
    for (unsigned q = r.u(3); q; --q) { function_t f; f.name_ = "zq" + std::to_string(q); f.code_start_ = int(r.u(0x7fffffff)); f.code_end_ = f.code_start_ + int(r.u(100)); a.prog.functions_.push_back(f); }
    a.prog.line_table_[int(r.u(0x7fffffff))] = line_t{1, 70000};
  }
  EXPECT(a.prog.serial_save(path), "cannot be saved");
  program_t b;
  if (r.coin()) { b.strings_.push_back("old"); b.functions_.emplace_back(); b.syscalls_.push_back({"old", nullptr}); b.code_.push_back(1); b.line_table_[7] = line_t{1, 2}; }
  const int n0 = fds();
  EXPECT(b.serial_load(path), "a saved program cannot be loaded");
  const std::string da = dump(a.prog), db = dump(b);
  EXPECT(da == db, "the loaded program differs from the saved one");
  for (auto &y : b.syscalls_) EXPECT(y.call_ == nullptr, "a loaded system call is already resolved");
  const std::string bytes = slurp(path);
  for (int q = 0; q < 6; ++q) {
    std::string cut = bytes.substr(0, r.u(uint32_t(bytes.size())));
    if (q == 5) { cut = bytes; cut[r.u(4)] ^= char(1 + r.u(255)); }
    spit(path, cut);
    program_t c;
    describe("%s\ncut to %zu of %zu bytes", p.text.c_str(), cut.size(), bytes.size());
    EXPECT(!c.serial_load(path), "a damaged file (%zu of %zu bytes) is loaded", cut.size(), bytes.size());
  }
  for (int q = 0; q < 4; ++q) {  // damaged sizes must not bring the host down
    std::string d = bytes;
    const size_t at = r.u(uint32_t(d.size() - 3));
    const int32_t v = r.coin() ? -1 - int32_t(r.u(1000)) : int32_t(0x7fffff00 + r.u(255));
    memcpy(&d[at], &v, 4);
    spit(path, d);
    describe("%s\nbytes at %zu replaced by %d", p.text.c_str(), at, v);
    program_t c;
    (void)c.serial_load(path);
  }
  EXPECT(fds() == n0, "files stay open after loading");
  unlink(path);
  EXPECT(!a.prog.serial_save("/dev/full"), "a program that could not be written is reported as saved");
  program_t e;
  EXPECT(!e.serial_load(path), "a missing file is loaded");
  // the loaded program behaves like the original
  builtins_resolve(b);
  for (auto &s : SYS) b.syscall_resolve(s.first, s.second.second);
  Ref ref(p);
  try { ref.init(); ref.call(p.fns.back(), {}); } catch (Err &) {} catch (Fuel &) { return; }
  Result x, y;
  exec(a.prog, x);
  exec(b, y);
  EXPECT(x.out == y.out && x.err == y.err && x.ret == y.ret, "the loaded program runs differently");
}

// ---- source lines -------------------------------------------------------------------------------------------------------
static std::string seq(const std::vector<int> &v) { std::string s; for (size_t i = 0; i < v.size() && i < 60; ++i) s += std::to_string(v[i]) + " "; return s; }
static int enc(const line_t &l) { return l.line == -1 ? -1 : l.file * 1000000 + l.line; }   // as the printer numbers the lines of further files
static line_t dec(int l) { return line_t{l / 1000000, l % 1000000}; }
// errors, stepping and breakpoints of a compiled program against the lines the reference runs
static void walk_lines(Rng &r, Prog &p, program_t &pg, bool opt) {
  Ref ref(p);
  std::string err; int eline = 0;
  try { ref.init(); ref.lines.clear(); } catch (Err &) { return; } catch (Fuel &) { return; }
  try { ref.call(p.fns.back(), {}); } catch (Err &e) { err = e.code; eline = e.line; } catch (Fuel &) { return; }
  std::set<int> heads;
  for (auto *f : p.fns) heads.insert(f->line);
  std::vector<std::string> sink;
  OUT = &sink;
  CURP = &pg;
  auto visit = [&](thread_t *t, std::vector<int> &v) { const int l = enc(t->get_source_line()); if (l != -1 && !(heads.count(l) && pg.data()[t->get_pc()] == INS_LOCALS) && (v.empty() || v.back() != l)) v.push_back(l); };
  const function_t *f = pg.function_find("main");
  for (int by = 0; by < (opt ? 1 : 2); ++by) {
    sink.clear();
    vm_t vm{pg};
    if (!vm.call_init()) return;
    thread_t *t = vm.new_thread(*f, 0, nullptr);
    std::vector<int> got;
    for (long k = 0; k < 400000 && !t->finished(); ++k) { visit(t, got); if (by) t->step_line(); else t->step_inst(); }
    EXPECT(t->finished(), "the program does not end");
    EXPECT(errname(t->get_error()) == err, "ends with '%s', expected '%s'", errname(t->get_error()).c_str(), err.c_str());
    if (!err.empty()) EXPECT(enc(t->get_source_line()) == eline, "the error '%s' of line %d is reported on line %d", err.c_str(), eline, enc(t->get_source_line()));
    if (!opt) EXPECT(got == ref.lines, "stepping by %s visits the lines %s, the program runs %s", by ? "line" : "instruction", seq(got).c_str(), seq(ref.lines).c_str());
  }
  if (opt) return;
  std::set<int> at;
  for (int k = 0; k < 4; ++k) { const int l = r.pick(ref.lines); if (l != ref.lines[0]) at.insert(l); }
  vm_t vm{pg};
  sink.clear();
  if (!vm.call_init()) return;
  thread_t *b = vm.new_thread(*f, 0, nullptr);
  for (int l : at) b->breakpoint_add(dec(l));
  const int o = r.pick(ref.lines);
  b->breakpoint_add(line_t{o / 1000000 + 7, o % 1000000});
  const int off = int(r.u(uint32_t(p.fns.back()->end + 3)));
  if (r.coin() && off != ref.lines[0]) { b->breakpoint_add(dec(off)); b->breakpoint_remove(dec(off)); at.erase(off); }
  std::vector<int> stops, want;
  for (size_t k = 1; k < ref.lines.size(); ++k) if (at.count(ref.lines[k])) want.push_back(ref.lines[k]);
  for (int k = 0; k < 100000 && !b->finished(); ++k) {
    b->resume(1 + r.u(1000));
    if (!b->finished() && b->halted_) stops.push_back(enc(b->get_source_line()));
  }
  EXPECT(b->finished(), "the program does not end under breakpoints");
  EXPECT(errname(b->get_error()) == err, "breakpoints change the outcome '%s' to '%s'", err.c_str(), errname(b->get_error()).c_str());
  EXPECT(stops == want, "breakpoints stop on %s, expected %s", seq(stops).c_str(), seq(want).c_str());
}
static void g_lines(Rng &r, long) {
  Mix m; m.stm = 4; m.blocks = 3; m.bad = r.u(3) == 0 ? 6 : 1;
  Style st; st.noisy = r.coin();
  Prog p = generate(r, m, st);
  describe("%s", p.text.c_str());
  for (int opt = 0; opt < 2; ++opt) {
    Script q(p.text, opt, SYS);
    EXPECT(q.ok, "valid program rejected: %s (line %d)", q.err.c_str(), q.line);
    walk_lines(r, p, q.prog, opt);
  }
}

// ---- the host's view of a program ---------------------------------------------------------------------------------------
static void vars(std::vector<S *> &b, std::vector<std::string> &o) { for (auto *s : b) { if (s->k == S_VAR) o.push_back(s->v->name); if (s->k == S_IF || s->k == S_WHILE || s->k == S_FOR) vars(s->t, o); if (s->has_else) vars(s->e, o); } }
static void look(program_t &pg, Prog &p, bool opt) {
  EXPECT(pg.functions().size() == p.fns.size() + 1, "%zu functions, expected %zu", pg.functions().size(), p.fns.size() + 1);
  EXPECT(pg.function_find("@init") && !pg.function_find("zq_nothing"), "lookup of @init or of an unknown name");
  std::vector<std::pair<int, int>> rng;
  for (auto *f : p.fns) {
    const function_t *g = pg.function_find(f->name);
    EXPECT(g && g->name_ == f->name, "function %s is not found", f->name.c_str());
    EXPECT(g->num_args() == int(f->args.size()), "%s takes %d arguments, not %zu", f->name.c_str(), g->num_args(), f->args.size());
    for (size_t i = 0; i < f->args.size(); ++i) EXPECT(g->args_[i].name_ == f->args[i]->name && g->args_[i].offset_ == int(i) - int(f->args.size()), "argument %zu of %s is %s at %d", i, f->name.c_str(), g->args_[i].name_.c_str(), g->args_[i].offset_);
    std::vector<std::string> w; vars(f->body, w);
    EXPECT(g->code_start_ >= 0 && g->code_start_ < g->code_end_ && g->code_end_ <= int(pg.size()), "code of %s is %d..%d", f->name.c_str(), g->code_start_, g->code_end_);
    for (int pc = g->code_start_; pc < g->code_end_; ++pc) EXPECT(pg.function_find(pc) == g, "address %d is not in %s", pc, f->name.c_str());
    std::vector<std::string> have; for (auto &l : g->locals_) { have.push_back(l.name_); EXPECT(l.offset_ >= 0, "local %s at %d", l.name_.c_str(), l.offset_); }
    if (opt) { size_t at = 0; for (auto &h : have) { while (at < w.size() && w[at] != h) ++at; EXPECT(at++ < w.size(), "local %s of %s is not declared there", h.c_str(), f->name.c_str()); } }   // dead code may be gone
    else EXPECT(have == w, "locals of %s are not the declared ones", f->name.c_str());
    rng.push_back({g->code_start_, g->code_end_});
  }
  std::vector<std::string> gw, gh;
  for (auto *g : p.globals) if (!g->is_const) gw.push_back(g->name);
  std::set<int> offs;
  for (auto &g : pg.globals()) { bool k = false; for (auto *v : p.globals) if (v->is_const && v->name == g.name_) k = true; if (k) continue; gh.push_back(g.name_); EXPECT(offs.insert(g.offset_).second && g.offset_ >= 0 && g.offset_ < int(gw.size()), "global %s at %d", g.name_.c_str(), g.offset_); }
  EXPECT(gw == gh, "the globals are not the declared ones");
}
static value_t *tov(vm_t &vm, const V &v) { switch (v.t) { case 'i': return vm.gc_->new_int(v.i); case 'f': return vm.gc_->new_float(v.f); case 's': return vm.gc_->new_string(v.s); default: return vm.gc_->new_none(); } }
static void g_host(Rng &r, long) {
  Mix m; m.fns = 4; m.stm = 3;
  Prog p = generate(r, m, Style());
  describe("%s", p.text.c_str());
  const bool opt = r.coin();
  source_manager_t src;
  src.load_from_string(p.text.c_str());
  program_t pg;
  nano_t n{pg};
  n.optimize = opt;
  std::string first;
  for (int round = 0; round < 2; ++round) {  // the compiler can be reused
    builtins_register(n);
    for (auto &s : SYS) n.syscall_register(s.first, s.second.first);
    nano::error_t e;
    if (r.u(4) == 0) {  // a failed build leaves nothing behind after a reset
      source_manager_t bad; bad.load_from_string(r.coin() ? "function main()\n  return 1 +\nend\n" : "var a = 3\nfunction f(x)\n  return y\nend\n");
      EXPECT(!n.build(bad, e), "a broken program is accepted");
      n.reset();
      builtins_register(n);
      for (auto &s : SYS) n.syscall_register(s.first, s.second.first);
    }
    EXPECT(n.build(src, e), "rejected: %s (line %d)", e.error.c_str(), e.line.line);
    look(pg, p, opt);
    const std::string d = dump(pg);
    if (round) EXPECT(d == first, "building again after a reset gives another program");
    first = d;
    if (round == 0) n.reset();
  }
  EXPECT(!pg.syscall_resolve("zq_none", s_out), "an unknown system call is resolved");
  builtins_resolve(pg);
  std::vector<std::string> sink;
  OUT = &sink; CURP = &pg;
  if (r.u(8) == 0) {  // a system call nobody resolved ends the script with an error
    vm_t vm{pg};
    Ref ref(p);
    try { ref.init(); ref.call(p.fns.back(), {}); } catch (Err &) {} catch (Fuel &) { return; }
    if (ref.out.empty() || !vm.call_init()) return;
    value_t *rc = nullptr; thread_error_t er;
    EXPECT(!vm.call_once(*pg.function_find("main"), 0, nullptr, rc, er) && er == thread_error_t::e_bad_syscall, "an unresolved system call gives error %d", int(er));
    return;
  }
  for (auto &s : SYS) EXPECT(pg.syscall_resolve(s.first, s.second.second), "%s cannot be resolved", s.first.c_str());
  vm_t vm{pg};
  Ref ref(p);
  try { ref.init(); } catch (...) { return; }
  EXPECT(vm.call_init(), "initialisation fails");
  for (int k = 0; k < 6; ++k) {
    Fn *f = r.pick(p.fns);
    std::vector<V> a;
    for (auto *x : f->args) { (void)x; switch (r.u(6)) { case 0: a.push_back(vf(float(r.u(100)) / 4)); break; case 1: a.push_back(vs("arg" + std::to_string(r.u(9)))); break; case 2: a.push_back(V()); break; default: a.push_back(vi(int(r.u(20)))); } }
    const bool wrong = r.u(6) == 0;
    if (wrong) { if (!a.empty() && r.coin()) a.pop_back(); else a.push_back(vi(1)); }
    std::vector<const value_t *> av; for (auto &v : a) av.push_back(tov(vm, v));
    value_t *rc = nullptr; thread_error_t er;
    describe("%s\ncall %d: %s with %zu arguments", p.text.c_str(), k, f->name.c_str(), a.size());
    if (wrong) { EXPECT(!vm.call_once(*pg.function_find(f->name), int(av.size()), av.data(), rc, er) && er == thread_error_t::e_bad_num_args, "%zu arguments for %s are accepted", av.size(), f->name.c_str()); continue; }
    std::string want, werr;
    ref.out.clear(); sink.clear(); ref.fuel = 4000; ref.depth = 0;
    try { want = show(ref.call(f, a)); } catch (Err &e) { werr = e.code; } catch (Fuel &) { return; }
    const bool ok = vm.call_once(*pg.function_find(f->name), int(av.size()), av.data(), rc, er);
    EXPECT(errname(er) == werr && ok == werr.empty(), "calling %s ends with '%s', expected '%s'", f->name.c_str(), errname(er).c_str(), werr.c_str());
    if (ok) EXPECT(showv(rc) == want, "calling %s returns %s, expected %s", f->name.c_str(), showv(rc).c_str(), want.c_str());
    EXPECT(sink == ref.out, "calling %s does [%s], expected [%s]", f->name.c_str(), join(sink).c_str(), join(ref.out).c_str());
    for (auto *g : p.globals) if (!g->is_const) for (auto &x : pg.globals()) if (x.name_ == g->name) EXPECT(showv(vm.g_[x.offset_]) == show(ref.glob[g]), "after %s global %s is %s, expected %s", f->name.c_str(), g->name.c_str(), showv(vm.g_[x.offset_]).c_str(), show(ref.glob[g]).c_str());
  }
}

// ---- tables: system calls and functions by name and address ----------------------------------------------------------
static std::vector<std::string> *HIT;
template <int N> static void s_hit(thread_t &t, int32_t n) { for (int i = 0; i < n; ++i) t.get_stack().pop(); HIT->push_back(std::to_string(N) + "/" + std::to_string(n)); t.get_stack().push_int(N); }
static nano_syscall_t hit(int i) { static const nano_syscall_t f[] = {s_hit<0>, s_hit<1>, s_hit<2>, s_hit<3>, s_hit<4>, s_hit<5>, s_hit<6>}; return f[i]; }
static std::vector<std::string> names(Rng &r, int n) {   // distinct names that begin, contain or continue one another
  std::set<std::string> seen;
  std::vector<std::string> v;
  while (int(v.size()) < n) {
    std::string s = v.empty() || r.u(3) == 0 ? std::string("q") : r.pick(v);
    switch (r.u(4)) { case 0: s += char('a' + r.u(26)); break; case 1: s = "zz_" + s; break; case 2: if (s.size() > 1) s.back() = char('A' + r.u(26)); break; default: s += std::to_string(r.u(30)); }
    if (seen.insert(s).second) v.push_back(s);
  }
  return v;
}
static void g_tables(Rng &r, long) {
  if (r.coin()) {   // directly
    program_t p;
    const int n = int(r.u(r.u(3) ? 8 : 60));
    std::vector<std::string> v = names(r, n + 3);
    std::string d;
    std::vector<nano_syscall_t> w;
    for (int i = 0; i < n; ++i) { nano_syscall_t c = r.coin() ? nullptr : hit(int(r.u(7))); p.syscalls_.push_back({v[i], c}); w.push_back(c); d += v[i] + " "; }
    describe("system calls %s", d.c_str());
    for (int q = 0; q < 6; ++q) {
      const size_t i = r.u(uint32_t(v.size()));
      nano_syscall_t c = hit(int(r.u(7)));
      const bool ok = p.syscall_resolve(v[i], c);
      EXPECT(ok == (i < size_t(n)), "resolving '%s' reports %d", v[i].c_str(), ok);
      if (i < w.size()) w[i] = c;
      EXPECT(p.syscalls_.size() == w.size(), "resolving '%s' changes the table's size", v[i].c_str());
      for (size_t k = 0; k < w.size(); ++k) EXPECT(p.syscalls_[k].call_ == w[k] && p.syscalls_[k].name_ == v[k], "resolving '%s' affects '%s'", v[i].c_str(), v[k].c_str());
    }
    p.functions_.clear();
    int at = 0;
    for (int i = 0; i < n; ++i) { function_t f; f.name_ = v[i]; at += int(r.u(3)); f.code_start_ = at; at += 1 + int(r.u(9)); f.code_end_ = at; p.functions_.push_back(f); }
    if (n > 2 && r.coin()) std::swap(p.functions_[0], p.functions_[n - 1]);
    const program_t &cp = p;
    for (auto &x : v) { function_t *f = nullptr; for (auto &y : p.functions_) if (y.name_ == x) f = &y; EXPECT(p.function_find(x) == f && cp.function_find(x) == f, "looking up function '%s'", x.c_str()); }
    for (int pc = -2; pc < at + 3; ++pc) { function_t *f = nullptr; for (auto &y : p.functions_) if (pc >= y.code_start_ && pc < y.code_end_) f = &y; EXPECT(p.function_find(pc) == f && cp.function_find(pc) == f, "looking up the function at address %d gives %s, expected %s", pc, p.function_find(pc) ? p.function_find(pc)->name_.c_str() : "none", f ? f->name_.c_str() : "none"); }
    return;
  }
  // registered with the compiler: argument counts are checked, calls arrive at the function of that name
  const int n = 1 + int(r.u(r.u(3) ? 8 : 60));
  std::vector<std::string> v = names(r, n);
  std::vector<int> ar;
  program_t p;
  nano_t c{p};
  c.optimize = r.coin();
  std::string d, text = "function main()\n";
  for (int i = 0; i < n; ++i) { ar.push_back(r.u(5) ? int(r.u(r.u(4) ? 4 : 20)) : -1); c.syscall_register(v[i], ar[i]); d += v[i] + ":" + std::to_string(ar[i]) + " "; }
  std::vector<std::string> want, got, used;
  const bool wrong = r.u(4) == 0;
  int wl = -1;
  const int calls = int(r.u(60)), wi = wrong ? int(r.u(uint32_t(calls + 1))) : -1;
  for (int k = 0; k <= calls; ++k) {
    const int i = int(r.u(n));
    int m = ar[i] < 0 ? int(r.u(6)) : ar[i];
    if (k == wi && ar[i] >= 0) { int q; do q = int(r.u(6)); while (q == ar[i]); m = q; wl = k + 2; }
    text += "  " + v[i] + "(";
    for (int a = 0; a < m; ++a) text += (a ? ", " : "") + std::to_string(a);
    text += ")\n";
    want.push_back(std::to_string(i % 7) + "/" + std::to_string(m));
    if (std::find(used.begin(), used.end(), v[i]) == used.end()) used.push_back(v[i]);
  }
  text += "end\n";
  describe("registered %s\n%s", d.c_str(), text.c_str());
  source_manager_t src;
  src.load_from_string(text.c_str());
  nano::error_t e;
  const bool ok = c.build(src, e);
  if (wl >= 0) { EXPECT(!ok, "a call with a wrong number of arguments on line %d is accepted", wl); EXPECT(e.line.line == wl, "a call with a wrong number of arguments on line %d is reported on line %d: %s", wl, e.line.line, e.error.c_str()); return; }
  EXPECT(ok, "rejected: %s (line %d)", e.error.c_str(), e.line.line);
  std::vector<std::string> have;
  for (auto &y : p.syscalls_) { have.push_back(y.name_); EXPECT(!y.call_, "'%s' is resolved after the build", y.name_.c_str()); }
  std::sort(have.begin(), have.end()); std::sort(used.begin(), used.end());
  EXPECT(std::includes(have.begin(), have.end(), used.begin(), used.end()), "the table lists %zu system calls, the program uses %zu", have.size(), used.size());
  for (size_t i = 0; i < have.size(); ++i) EXPECT((!i || have[i] != have[i - 1]) && std::find(v.begin(), v.end(), have[i]) != v.end(), "'%s' is listed twice or was never registered", have[i].c_str());
  for (int i = 0; i < n; ++i) EXPECT(p.syscall_resolve(v[i], hit(i % 7)) == (std::find(have.begin(), have.end(), v[i]) != have.end()), "resolving '%s'", v[i].c_str());
  HIT = &got;
  vm_t vm{p};
  EXPECT(vm.call_init(), "initialisation fails");
  value_t *rc = nullptr; thread_error_t er;
  EXPECT(vm.call_once(*p.function_find("main"), 0, nullptr, rc, er), "error %d", int(er));
  EXPECT(got == want, "the calls arrive as %s, expected %s", join(got).c_str(), join(want).c_str());
}

// a directory of this case, with sub/ in it; removed with what spit() put there
struct Scratch {
  std::string d;
  Scratch(const char *n) : d(n) { WROTE.clear(); mkdir(n, 0755); mkdir((d + "/sub").c_str(), 0755); }
  ~Scratch() { for (auto &f : WROTE) if (f.compare(0, d.size() + 1, d + "/") == 0) unlink(f.c_str()); rmdir((d + "/sub").c_str()); rmdir(d.c_str()); }
};
// ---- source files by name -----------------------------------------------------------------------------------------------
static void g_paths(Rng &r, long k) {
  char dir[64]; snprintf(dir, 64, "pth.%ld", k);
  Scratch scratch(dir);
  auto norm = [](std::string s) { for (auto &c : s) c = c == '\\' ? '/' : char(tolower(c)); return s; };
  std::map<std::string, std::string> disk;
  std::vector<std::string> loaded;
  std::vector<std::string> text;
  source_manager_t src;
  static const char *st[] = {"a", "ab", "a.nano", "A.nano", "b", "sub/a", "sub/b.nano", "B", "abc.nanox", "abc.nano", "sub/A"};
  std::string log;
  for (int q = 2 + int(r.u(10)); q; --q) {
    std::string p = std::string(dir) + "/" + st[r.u(11)];
    if (r.u(3) == 0) { std::string t; for (unsigned n = r.u(6); n; --n) { for (unsigned c = r.u(6) ? r.u(20) : r.u(300); c; --c) t += char(32 + r.u(95)); if (n > 1 || r.coin()) t += r.u(8) ? "\n" : "\r\n"; } if (std::find(loaded.begin(), loaded.end(), p) == loaded.end()) { spit(p.c_str(), t); disk[p] = t; } }
    if (r.u(3) == 0) for (auto &c : p) if (r.u(3) == 0) { if (c == '/') c = '\\'; else c = char(toupper(c)); }
    bool dup = false;
    for (auto &l : loaded) dup |= norm(l) == norm(p);
    auto it = disk.find(p);
    const bool have = it != disk.end() && !it->second.empty();
    log += "load " + p + "\n";
    describe("%s", log.c_str());
    const bool ok = src.load(p.c_str());
    EXPECT(ok == (dup || have), "load(%s) gives %d, expected %d", p.c_str(), ok, dup || have);
    if (!dup && have) { loaded.push_back(p); text.push_back(it->second); }
    EXPECT(src.count() == int(loaded.size()), "%d sources, expected %zu", src.count(), loaded.size());
  }
  for (size_t i = 0; i < loaded.size(); ++i) {
    const source_t &s = src.get_source(int(i));
    EXPECT(s.file_path() == loaded[i], "source %zu is %s, expected %s", i, s.file_path().c_str(), loaded[i].c_str());
    EXPECT(text[i] == s.data(), "the text of %s is '%s', expected '%s'", loaded[i].c_str(), s.data(), text[i].c_str());
    std::string rest = text[i];
    for (int n = 1;; ++n) {
      const size_t e = rest.find('\n');
      const std::string w = e == std::string::npos ? rest : rest.substr(0, e), g = src.get_line(line_t{int32_t(i), n});
      EXPECT(g == w || g == w + "\n", "line %d of %s is '%s', expected '%s'", n, loaded[i].c_str(), g.c_str(), w.c_str());
      if (e == std::string::npos) break;
      rest = rest.substr(e + 1);
    }
  }
  // a failing import names its file
  std::string miss = "zq_"; for (unsigned n = r.u(4) ? r.u(30) : r.u(400); n; --n) miss += char('a' + r.u(26));
  std::string t; for (unsigned n = r.u(5); n; --n) t += "\n";
  const int l = 1 + int(t.size());
  t += "import \"" + miss + "\"\nfunction main()\nend\n";
  describe("%s", t.c_str());
  source_manager_t one; one.load_from_string(t.c_str());
  program_t pg; nano_t n{pg}; nano::error_t e;
  EXPECT(!n.build(one, e), "a missing import is accepted");
  EXPECT(e.line.file == 0 && e.line.line == l, "a missing import of line %d is reported on line %d of file %d", l, e.line.line, e.line.file);
  EXPECT(e.error.find(miss) != std::string::npos, "a missing import is reported as: %s", e.error.c_str());
  // an unknown name is reported by name and line
  t = t.substr(0, size_t(l - 1)) + "function main()\n  return " + miss + "\nend\n";
  describe("%s", t.c_str());
  source_manager_t two; two.load_from_string(t.c_str());
  program_t pg2; nano_t n2{pg2}; nano::error_t e2;
  EXPECT(!n2.build(two, e2), "an unknown name is accepted");
  EXPECT(e2.line.file == 0 && e2.line.line == l + 1, "an unknown name of line %d is reported on line %d of file %d", l + 1, e2.line.line, e2.line.file);
  EXPECT(e2.error.find(miss) != std::string::npos, "an unknown name is reported as: %s", e2.error.c_str());
}

// ---- programs in several files ------------------------------------------------------------------------------------------
static void g_files(Rng &r, long k) {
  Mix m; m.fns = 4; m.stm = 3;
  Gen g(r, m);
  Prog p = g.make();
  char dir[64]; snprintf(dir, 64, "imp.%ld", k);
  Scratch scratch(dir);
  struct F { std::string path, text; std::vector<Fn *> fns; std::vector<int> imp; int base; };
  const int nf = 1 + int(r.u(4));
  std::vector<F> fs(nf);
  for (int i = 0; i < nf; ++i) { const bool sub = i && r.u(3) == 0; fs[i].path = std::string(dir) + (sub ? "/sub/" : "/") + "file" + std::string(1, char('a' + i)) + (r.u(4) ? ".nano" : ""); fs[i].base = sub; }
  for (int i = 1; i < nf; ++i) fs[r.u(i)].imp.push_back(i);
  for (unsigned q = r.u(4); q; --q) fs[r.u(nf)].imp.push_back(int(r.u(nf)));     // repeats, cycles, itself
  // paths are compared as text: one spelling per file keeps this about loading once
  for (auto *f : p.fns) fs[r.u(nf)].fns.push_back(f);
  auto rel = [&](int from, int to) { const std::string b = fs[to].path.substr(strlen(dir) + 1); (void)from; return b; };
  for (int i = 0; i < nf; ++i) { std::vector<int> keep; for (int j : fs[i].imp) if (!(fs[i].base && !fs[j].base)) keep.push_back(j); fs[i].imp = keep; }
  // order of loading: breadth first in order of the import lines
  std::vector<int> order{0};
  for (size_t q = 0; q < order.size(); ++q) for (int j : fs[order[q]].imp) if (std::find(order.begin(), order.end(), j) == order.end()) order.push_back(j);
  for (int i = 0; i < nf; ++i) if (std::find(order.begin(), order.end(), i) == order.end()) { for (auto *f : fs[i].fns) fs[0].fns.push_back(f); fs[i].fns.clear(); }
  const int what = int(r.u(4));
  int bf = -1, bl = -1;
  const int at = order[r.u(uint32_t(order.size()))];
  for (int i = 0; i < nf; ++i) {
    Printer pr(r, Style());
    const int pos = int(std::find(order.begin(), order.end(), i) - order.begin());
    pr.line = pos * 1000000 + 1;
    Prog part;
    for (int j : fs[i].imp) { std::string q = rel(i, j); if (fs[i].base) q = q.substr(4); pr.o += "import \"" + q + "\""; pr.nl(); }
    if (what == 1 && i == at) { bl = pr.line % 1000000; pr.o += "import \"zq_missing.nano\""; pr.nl(); }
    if (i == 0) part.globals = p.globals;
    part.fns = fs[i].fns;
    const int l0 = pr.line; (void)l0;
    pr.prog(part);
    if (what == 2 && i == at) { bl = pr.line % 1000000 + 1; pr.o += "function zq_bad()\n  return zq_unknown\nend\n"; }
    if (what == 3 && i == at) { bl = pr.line % 1000000 + 1; pr.o += "function zq_bad()\n  return )\nend\n"; }
    if (pr.o.empty()) pr.o = "\n";
    fs[i].text = pr.o;
    spit(fs[i].path.c_str(), fs[i].text);
  }
  if (what) for (size_t q = 0; q < order.size(); ++q) if (order[q] == at) bf = int(q);
  std::string all;
  for (int i : order) all += "--- " + fs[i].path + "\n" + fs[i].text;
  describe("%s", all.c_str());
  source_manager_t src;
  EXPECT(src.load(fs[0].path.c_str()), "the first file cannot be loaded");
  program_t pg;
  nano_t n{pg};
  const bool opt = r.coin();
  n.optimize = opt;
  builtins_register(n);
  for (auto &s : SYS) n.syscall_register(s.first, s.second.first);
  nano::error_t e;
  const bool ok = n.build(src, e);
  if (what) {
    EXPECT(!ok, "accepted with %s", what == 1 ? "a missing import" : "an error in a file");
    EXPECT(e.line.file == bf && e.line.line == bl, "the error on line %d of file %d is reported on line %d of file %d: %s", bl, bf, e.line.line, e.line.file, e.error.c_str());
    if (what == 1) EXPECT(e.error.find("zq_missing.nano") != std::string::npos, "a missing import is reported as: %s", e.error.c_str());
    std::string l = src.get_line(e.line);
    EXPECT(l.find(what == 1 ? "zq_missing" : "return") != std::string::npos, "the text of the failing line is given as '%s'", l.c_str());
    return;
  }
  EXPECT(ok, "rejected: %s (file %d line %d)", e.error.c_str(), e.line.file, e.line.line);
  EXPECT(src.count() == int(order.size()), "%d files loaded, expected %zu", src.count(), order.size());
  for (size_t q = 0; q < order.size(); ++q) EXPECT(src.get_source(int(q)).file_path() == fs[order[q]].path && fs[order[q]].text == src.get_source(int(q)).data(), "file %zu is %s", q, src.get_source(int(q)).file_path().c_str());
  look(pg, p, opt);
  builtins_resolve(pg);
  for (auto &s : SYS) pg.syscall_resolve(s.first, s.second.second);
  for (size_t q = 0; q < order.size(); ++q) for (auto *f : fs[order[q]].fns) { const function_t *fn = pg.function_find(f->name); for (int pc = fn->code_start_; pc < fn->code_end_; ++pc) { line_t l = pg.get_line(pc); if (l.line != -1) EXPECT(l.file == int(q) && enc(l) >= f->line && enc(l) <= f->end, "code of %s is on line %d of file %d", f->name.c_str(), l.line, l.file); } }
  Prog whole = p;
  // main is called by name
  for (size_t i = 0; i < whole.fns.size(); ++i) if (whole.fns[i]->name == "main") std::swap(whole.fns[i], whole.fns.back());
  whole.text = all;
  compare(whole, "program in several files", [&](const std::string &) { Result x; x.compiled = true; exec(pg, x); return x; });
  walk_lines(r, whole, pg, opt);
}

// ---- stepping through two files whose line numbers meet -------------------------------------------------------------------
static void g_meet(Rng &r, long k) {
  Mix m; m.depth = 1;
  Gen g(r, m);
  auto call = [&](Fn *f) { E *e = g.mk(K_CALL); E *c = g.mk(K_FN); c->fn = f; e->c = {c, g.ilit(int(r.u(9)))}; return e; };
  Prog p;
  auto fill = [&](Fn *f, Fn *callee, int n) {
    for (int i = 0; i < n; ++i) {
      S *s = new S;
      Var *v = new Var; v->name = "v" + std::to_string(i); v->kind = 0; v->ty = 0;
      if (callee && r.u(3)) { if (r.coin()) { s->k = S_CALL; s->a = call(callee); } else { s->k = S_VAR; s->v = v; s->a = call(callee); } }
      else { s->k = S_VAR; s->v = v; s->a = g.ilit(i); }
      f->body.push_back(s);
    }
    if (r.coin()) { S *s = new S; s->k = S_RET; s->a = callee && r.coin() ? call(callee) : g.ilit(3); f->body.push_back(s); }
  };
  const int nf = 2 + int(r.u(2));
  std::vector<Fn *> fn;
  for (int i = 0; i < nf; ++i) { Fn *f = new Fn; f->name = i + 1 == nf ? "main" : "g" + std::to_string(i); if (i + 1 < nf) { Var *a = new Var; a->name = "a"; a->kind = 2; a->ty = 0; f->args = {a}; } fill(f, i ? fn[i - 1] : nullptr, int(r.u(i + 1 == nf ? 6 : 3))); fn.push_back(f); }
  p.fns = fn;
  char dir[64]; snprintf(dir, 64, "meet.%ld", k);
  Scratch scratch(dir);
  std::string all;
  for (int i = nf; i-- > 0;) {   // main is file 0 and imports the next one, and so on
    Printer pr(r, Style());
    pr.line = (nf - 1 - i) * 1000000 + 1;
    if (i) { pr.o += "import \"f" + std::to_string(i - 1) + ".nano\""; pr.nl(); }
    for (unsigned q = r.u(5); q; --q) pr.nl();
    Prog part; part.fns = {fn[i]};
    pr.prog(part);
    spit((std::string(dir) + "/f" + std::to_string(i) + ".nano").c_str(), pr.o);
    all += "--- f" + std::to_string(i) + ".nano\n" + pr.o;
  }
  describe("%s", all.c_str());
  source_manager_t src;
  EXPECT(src.load((std::string(dir) + "/f" + std::to_string(nf - 1) + ".nano").c_str()), "the first file cannot be loaded");
  program_t pg;
  nano_t n{pg};
  n.optimize = false;
  nano::error_t e;
  EXPECT(n.build(src, e), "rejected: %s (file %d line %d)", e.error.c_str(), e.line.file, e.line.line);
  walk_lines(r, p, pg, false);
}

int main(int argc, char **argv) {
  return oracle_main(argc, argv, {{"expr", g_expr}, {"flow", g_flow}, {"full", g_full}, {"fold", g_fold}, {"names", g_names}, {"lex", g_lex}, {"reject", g_reject}, {"grammar", g_grammar}, {"serial", g_serial}, {"lines", g_lines}, {"host", g_host}, {"tables", g_tables}, {"meet", g_meet}, {"files", g_files}, {"paths", g_paths}});
}
