// Shared frame of the native oracles: every case runs the real library code in a forked child.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

struct Rng {
  uint64_t s;
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; }
  uint32_t u(uint32_t n) { return n ? uint32_t((next() >> 33) % n) : 0; }
  bool coin() { return u(2); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[u(uint32_t(v.size()))]; }
};

struct Shared { long cur; int bad; char msg[3000]; char what[6000]; };
static Shared *sh;
static void describe(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(sh->what, sizeof(sh->what), f, a); va_end(a); }
[[noreturn]] static void mismatch(const char *f, ...) {
  va_list a; va_start(a, f); vsnprintf(sh->msg, sizeof(sh->msg), f, a); va_end(a);
  sh->bad = 1;
  _exit(3);
}
#define EXPECT(c, ...) do { if (!(c)) mismatch(__VA_ARGS__); } while (0)

struct Group { const char *name; std::function<void(Rng &, long)> fn; };

static int oracle_main(int argc, char **argv, std::vector<Group> groups) {
  const std::string grp = argc > 1 ? argv[1] : "";
  const long seed = argc > 2 ? atol(argv[2]) : 1, limit = argc > 3 ? atol(argv[3]) : 100, from = argc > 4 ? atol(argv[4]) : 0;
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (auto &g : groups) {
    if (grp != g.name) continue;
    long i = from;
    while (i < from + limit) {
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) {
        if (!getenv("ORACLE_VERBOSE")) { freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout); }
        for (long k = i; k < i + 64 && k < from + limit; ++k) {
          sh->cur = k;
          sh->what[0] = 0;
          alarm(20);
          Rng r{(uint64_t)(seed * 7919 + k * 104729 + 1) * 0x9E3779B97F4A7C15ULL | 1};
          r.next(); r.next();
          g.fn(r, k);
        }
        _exit(0);
      }
      int stt = 0;
      waitpid(p, &stt, 0);
      if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) { i += 64; continue; }
      for (char *c = sh->msg; *c; ++c) if (*c == '\n') *c = ' ';
      if (sh->bad) printf("MISMATCH case=%ld %s\n", sh->cur, sh->msg);
      else printf("MISMATCH case=%ld the real code stopped (%s %d)\n", sh->cur, WIFSIGNALED(stt) ? "signal" : "exit", WIFSIGNALED(stt) ? WTERMSIG(stt) : WEXITSTATUS(stt));
      printf("INPUT\n%s\nEND\n", sh->what);
      printf("CASES %ld\n", sh->cur - from);
      return 0;
    }
    printf("CASES %ld\n", limit);
    return 0;
  }
  printf("NOGROUP\n");
  return 0;
}
