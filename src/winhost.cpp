// A program that uses the fiber interface of the operating system itself, next to the contexts of the library:
// all sequences (up to a length) of operations on a fresh thread.
#include <windows.h>
#include <boost/context/fixedsize_stack.hpp>
#if API == 0
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#else
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#endif
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/resource.h>
#include <time.h>
namespace winshim { extern long live, threads; }
template <class F> static Ctx create(F &&f) {
#if API == 0
  return Ctx(std::forward<F>(f)).resume();
#else
  return boost::context::callcc(std::forward<F>(f));
#endif
}
static const char *const OPS = "CXBDWTF";
static std::string bad;
static long nops;
static void fail(const std::string &s) { if (bad.empty()) bad = s; }
struct Host { bool converted = false; LPVOID me = nullptr; LPVOID data = nullptr; Ctx held; int steps = 0; };
struct OsFiber { LPVOID back; int n; };
static VOID WINAPI os_fiber(LPVOID p) { OsFiber *o = (OsFiber *)p; for (;;) { o->n++; SwitchToFiber(o->back); } }
struct Boom {};
static void op(Host &h, char c) {
  nops++;
  switch (c) {
    case 'C':                                    // the program turns the thread into a fiber
      if (!IsThreadAFiber()) { h.data = &h; h.me = ConvertThreadToFiber(h.data); h.converted = true; if (!h.me) fail("the thread is a fiber although IsThreadAFiber() said no"); }
      break;
    case 'X':                                    // the other common way: convert, or find that it is one
      { LPVOID p = ConvertThreadToFiberEx(&h, FIBER_FLAG_FLOAT_SWITCH); if (p) { h.me = p; h.data = &h; h.converted = true; } else if (GetLastError() != ERROR_ALREADY_FIBER || GetCurrentFiber() == (LPVOID)0x1E00) fail("the thread is neither a thread nor a fiber"); }
      break;
    case 'B': { int n = 0; Ctx x = create([&n](Ctx &&m) { n++; m = std::move(m).resume(); n++; return std::move(m); }); if (n != 1 || !x) fail("create"); x = std::move(x).resume(); if (n != 2 || x) fail("resume"); break; }
    case 'D': { int n = 0; { struct G { int *p; ~G() { ++*p; } }; Ctx x = create([&n](Ctx &&m) { G g{&n}; m = std::move(m).resume(); n += 10; return std::move(m); }); } if (n != 1) fail("the stack of a destroyed context was not unwound"); break; }
    case 'W': { int n = 0; Ctx x = create([&n](Ctx &&m) { m = std::move(m).resume(); n++; return std::move(m); }); x = std::move(x).resume_with([&n](Ctx &&m) { n += 10; return std::move(m); }); if (n != 11 || x) fail("resume_with"); break; }
    case 'T':                                    // one context is kept across the other operations
      if (!h.held) { int *s = &h.steps; *s = 0; h.held = create([s](Ctx &&m) { for (;;) { ++*s; m = std::move(m).resume(); } return std::move(m); }); if (h.steps != 1) fail("create"); }
      else { int b = h.steps; h.held = std::move(h.held).resume(); if (h.steps != b + 1) fail("resume of the kept context"); }
      break;
    case 'F': {                                  // the program's own fibers
      bool conv = false;
      if (!IsThreadAFiber()) { h.data = &h; h.me = ConvertThreadToFiber(h.data); h.converted = conv = true; }
      (void)conv;
      LPVOID me = GetCurrentFiber(); OsFiber o = {me, 0};
      LPVOID f = CreateFiber(0, os_fiber, &o);
      SwitchToFiber(f); SwitchToFiber(f);
      if (o.n != 2 || GetCurrentFiber() != me) fail("a fiber of the program");
      DeleteFiber(f);
      break;
    }
  }
  if (h.converted) {
    if (!IsThreadAFiber()) fail("the thread, converted by the program, is no fiber any more");
    else if (GetCurrentFiber() != h.me) fail("the current fiber is not the one of the program");
    else if (GetFiberData() != h.data) fail("the fiber data of the program changed");
  }
}
struct Run { const char *s; bool host; };
static void *thread(void *a) {
  Run *r = (Run *)a; Host h;
  for (const char *p = r->s; *p && bad.empty(); p++) op(h, *p);
  h.held = Ctx();
  if (h.converted && (GetCurrentFiber() != h.me)) fail("the current fiber is not the one of the program at the end");
  r->host = h.converted;
  return 0;
}
// the thread turns itself into a fiber for the first time while the program's own thread does other work
static std::string one(const std::string &s) {
  int fd[2]; if (pipe(fd)) exit(3);
  pid_t p = fork();
  if (!p) {
    dup2(fd[1], 1); dup2(fd[1], 2); close(fd[0]); close(fd[1]); alarm(60);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    long t0 = winshim::threads, l0 = winshim::live;
    Run r = {s.c_str(), false};
    pthread_t t; pthread_create(&t, 0, thread, &r); pthread_join(t, 0);
    if (bad.empty() && winshim::live != l0) fail("fibers were left behind");
    if (bad.empty() && !r.host && winshim::threads != t0) fail("the ended thread was not converted back from a fiber");
    if (!bad.empty()) { printf("%s", bad.c_str()); fflush(stdout); _exit(1); }
    _exit(0);
  }
  close(fd[1]); std::string out; char b[1000]; ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, n);
  close(fd[0]); int st; waitpid(p, &st, 0);
  if (st == 0) return "";
  for (auto &c : out) if (c == '"' || c == '\\' || (unsigned char)c < 32) c = ' ';
  return out.empty() ? "the process died" : out.substr(0, 300);
}
int main(int argc, char **argv) {
  int len = 3; const char *rp = nullptr; double budget = 1e9; time_t t0 = time(0);
  for (int i = 1; i + 1 < argc; i += 2) { if (!strcmp(argv[i], "--len")) len = atoi(argv[i + 1]); if (!strcmp(argv[i], "--path")) rp = argv[i + 1]; if (!strcmp(argv[i], "--budget")) budget = atof(argv[i + 1]); }
  long n = 0; std::string v, vs, samples; bool capped = false;
  if (rp) { v = one(rp); printf("%s\n", v.empty() ? "no violation" : v.c_str()); return !v.empty(); }
  std::vector<std::string> cur = {""};
  for (int l = 1; l <= len && v.empty() && !capped; l++) {
    std::vector<std::string> nx;
    for (auto &p : cur) for (const char *o = OPS; *o && v.empty(); o++) {
      if (time(0) - t0 > budget) { capped = true; break; }
      std::string s = p + *o; nx.push_back(s); n++;
      std::string e = one(s);
      if (n % 97 == 5) samples += (samples.empty() ? "\"" : ",\"") + s + "\"";
      if (!e.empty()) { v = e; vs = s; }
    }
    cur.swap(nx);
  }
  printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"samples\":[%s]", n, n, samples.c_str());
  if (!v.empty()) printf(",\"violation\":{\"message\":\"the program's operations %s: %s\",\"replay\":[\"--path\",\"%s\"]}", vs.c_str(), v.c_str(), vs.c_str());
  printf("}\n");
  return !v.empty();
}
