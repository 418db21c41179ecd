// Contexts used while a program or a thread starts and ends: constructors and destructors of objects with static and
// thread storage duration, atexit() functions, thread-specific-data destructors. Every assignment of operations to at
// most k of these points is run as a process of its own; a model says what has to be observed.
#ifdef BOOST_USE_WINFIB
#include <windows.h>
#endif
#include <boost/context/fixedsize_stack.hpp>
#if API == 0
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#else
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#endif
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <new>
#include <string>
#include <thread>
#include <vector>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
// points in the life of the process, in the order in which they are passed
enum Pt { SCTOR, MAIN0, TH0, TH_TLS_AFTER, TH_TLS_BEFORE, TH_KEY, TH2, MAIN1, M_TLS_AFTER, M_TLS_BEFORE, S_LOCAL, ATEXIT, S_DTOR, NPT };
static const char *const PN[NPT] = {"static constructor", "main", "thread", "destructor of a thread_local constructed after the first use (thread)", "destructor of a thread_local constructed before the first use (thread)", "destructor of thread-specific data", "second thread", "end of main", "destructor of a thread_local constructed after the first use (main)", "destructor of a thread_local constructed before the first use (main)", "destructor of a static of main()", "atexit function", "static destructor"};
static const char OPS[] = "-RSDWN";   // nothing, Run a fresh context, Store/step the kept one, Destroy it, resume it With a function, kept one that Nests a context while it unwinds
struct Shared { int n; char ev[400]; long allocs, frees; long thread_blocks, os_fibers, os_threads; int done; };
#ifdef BOOST_USE_WINFIB
namespace winshim { extern long live, threads; }
#endif
static Shared *sh;
static const char *scen;
static void ev(char c) { int i = __atomic_fetch_add(&sh->n, 1, __ATOMIC_RELAXED); if (i < 399) sh->ev[i] = c; }
// blocks of the library's bookkeeping: pages of their own, unmapped on release, so that a late use is a fault
static bool paging;
static std::atomic<long> blocks;
struct Hdr { size_t raw; unsigned long magic; };
static void *take(size_t n) {
  if (!paging) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
  size_t raw = (n + 64 + 4095) / 4096 * 4096 + 4096;
  char *b = (char *)syscall(SYS_mmap, 0, raw, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  Hdr *h = (Hdr *)b; h->raw = raw; h->magic = 0xB10CB10Cul; blocks++;
  return b + 64;
}
static void give(void *p) {
  if (!p) return;
  if (((size_t)p & 4095) == 64) { Hdr *h = (Hdr *)((char *)p - 64); if (h->magic == 0xB10CB10Cul) { blocks--; syscall(SYS_munmap, h, h->raw); return; } }
  free(p);
}
void *operator new(size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
struct Alloc {
  typedef boost::context::stack_traits traits_type;
  boost::context::stack_context allocate() { sh->allocs++; boost::context::stack_context s; s.size = 128 * 1024; char *b = (char *)syscall(SYS_mmap, 0, s.size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); s.sp = b + s.size; return s; }
  void deallocate(boost::context::stack_context &s) noexcept { sh->frees++; syscall(SYS_munmap, (char *)s.sp - s.size, s.size); }
};
template <class F> static Ctx create(F &&f) {
#if API == 0
  return Ctx(std::allocator_arg, Alloc(), std::forward<F>(f)).resume();
#else
  return boost::context::callcc(std::allocator_arg, Alloc(), std::forward<F>(f));
#endif
}
alignas(Ctx) static char slotmem[sizeof(Ctx)];
static Ctx &slot() { return *reinterpret_cast<Ctx *>(slotmem); }
static void fresh() {
  Ctx c = create([](Ctx &&m) { ev('r'); m = std::move(m).resume(); ev('s'); try { throw 1; } catch (int) { ev('t'); } return std::move(m); });
  ev(c ? '1' : '0'); c = std::move(c).resume(); ev(c ? '1' : '0');
}
struct Guard { bool nest; ~Guard() { ev('u'); if (nest) fresh(); } };
static void op(Pt p) {
  char c = scen[p];
  if (c == '-') return;
  ev('A' + p);
  switch (c) {
    case 'R': fresh(); break;
    case 'S': case 'N':
      if (!slot()) { bool n = c == 'N'; slot() = create([n](Ctx &&m) { Guard g{n}; for (;;) { ev('p'); m = std::move(m).resume(); } return std::move(m); }); }
      else slot() = std::move(slot()).resume();
      ev(slot() ? '1' : '0');
      break;
    case 'W':
      if (slot()) { slot() = std::move(slot()).resume_with([](Ctx &&m) { ev('w'); return std::move(m); }); ev(slot() ? '1' : '0'); }
      else { Ctx k = create([](Ctx &&m) { m = std::move(m).resume(); ev('s'); return std::move(m); }); k = std::move(k).resume_with([](Ctx &&m) { ev('w'); return std::move(m); }); ev(k ? '1' : '0'); }
      break;
    case 'D': slot() = Ctx(); ev(slot() ? '1' : '0'); break;
  }
}
// the same, as the model has it
static std::string expect(const char *s, long &stacks, bool &kept) {
  std::string e; bool has = false, nest = false; stacks = 0; const std::string f = "r1st0";
  for (int p = 0; p < NPT; p++) {
    if (s[p] == '-') continue;
    e += 'A' + p;
    switch (s[p]) {
      case 'R': e += f; stacks++; break;
      case 'S': case 'N': if (!has) { has = true; nest = s[p] == 'N'; stacks++; } e += "p1"; break;
      case 'W': if (has) e += "wp1"; else { e += "ws0"; stacks++; } break;
      case 'D': if (has) { e += 'u'; if (nest) { e += f; stacks++; } has = false; } e += '0'; break;
    }
  }
  kept = has; return e;
}
template <Pt P> struct At { ~At() { op(P); } void touch() { __asm__ volatile("" : : "r"(this)); } };
static void atexit_fn() { op(ATEXIT); }
static void key_fn(void *) { op(TH_KEY); }
static void second() { op(TH2); }
static void thread_fn(pthread_key_t k) {
  thread_local At<TH_TLS_BEFORE> b; b.touch();
  pthread_setspecific(k, (void *)1);
  if (scen[NPT] == 'u') { ev('a'); fresh(); }
  op(TH0);
  thread_local At<TH_TLS_AFTER> a; a.touch();
}
struct Static { Static(); ~Static(); };
// constructed before and destroyed after everything else of this file
static Static st __attribute__((init_priority(200)));
Static::Static() { if (scen) op(SCTOR); }
Static::~Static() { if (scen) { op(S_DTOR); sh->done++;
#ifdef BOOST_USE_WINFIB
    sh->os_fibers = winshim::live;
#endif
  } }
__attribute__((constructor(101))) static void early(int argc, char **argv) {
  if (argc == 4 && !strcmp(argv[1], "child")) {
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(argv[2]), 0);
    scen = argv[3]; new (slotmem) Ctx(); paging = true;
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    alarm(20);
  }
}
static int child() {
  thread_local At<M_TLS_BEFORE> b; b.touch();
  op(MAIN0);
  pthread_key_t k; pthread_key_create(&k, key_fn);
  std::atexit(atexit_fn);
  { std::thread t(thread_fn, k); t.join(); }
  long b0;
  { b0 = blocks;
#ifdef BOOST_USE_WINFIB
    long t0 = winshim::threads;
#endif
    std::thread t(second); t.join(); sh->thread_blocks = blocks - b0;
#ifdef BOOST_USE_WINFIB
    sh->os_threads = winshim::threads - t0;
#endif
  }
  op(MAIN1);
  thread_local At<M_TLS_AFTER> a; a.touch();
  static At<S_LOCAL> s; s.touch();
  switch (scen[NPT + 1]) {      // the program ends by a call of exit() inside a context, or inside one that another one runs
    case 'e': create([](Ctx &&m) { exit(7); return std::move(m); }); break;
    case 'n': create([](Ctx &&m) { Ctx k = create([](Ctx &&l) { l = std::move(l).resume(); exit(7); return std::move(l); }); k = std::move(k).resume(); return std::move(m); }); break;
  }
  return 7;
}
static std::string one(int fd, Shared *m, const char *self, const std::string &s) {
  memset(m, 0, sizeof *m); sh = m;
  std::string f = std::to_string(fd); const char *av[] = {self, "child", f.c_str(), s.c_str(), nullptr};
  pid_t p; posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  if (posix_spawn(&p, self, &fa, 0, (char *const *)av, environ)) exit(3);
  posix_spawn_file_actions_destroy(&fa);
  int st; waitpid(p, &st, 0);
  std::string r(m->ev, m->n < 399 ? m->n : 399); long stacks; bool kept;
  std::string x = expect(s.c_str(), stacks, kept);
  // the optional use that makes the library known to the thread early
  std::string y = r; size_t i = y.find('a'); if (i != std::string::npos) y.erase(i, 6);
  if (y != x) return "observed " + r + ", expected " + x + (st ? " (status " + std::to_string(st) + ")" : "");
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 7 || m->done != 1) return "the process ended with status " + std::to_string(st) + " after " + r;
  if (i != std::string::npos) stacks++;
  int left = kept + (s[NPT + 1] == 'n' ? 2 : s[NPT + 1] != '-'); stacks += left - kept;
  if (m->allocs != stacks || m->frees != stacks - left) return std::to_string(m->allocs) + " stacks were allocated and " + std::to_string(m->frees) + " released, expected " + std::to_string(stacks) + " and " + std::to_string(stacks - left);
#ifdef BOOST_USE_WINFIB
  if (m->os_fibers != left) return std::to_string(m->os_fibers) + " fibers of the operating system were left at the end, expected " + std::to_string(left);
  if (m->os_threads > 0) return "an ended thread was not converted back from a fiber";
#endif
  if (m->thread_blocks > 0 && !(s[TH2] == 'S' || s[TH2] == 'N' || s[TH2] == 'D')) return "bookkeeping of an ended thread was not released";
  return "";
}
int main(int argc, char **argv) {
  if (argc == 4 && !strcmp(argv[1], "child")) return child();
  int k = 3; double budget = 1e9; const char *rp = nullptr;
  for (int i = 1; i + 1 < argc; i += 2) { if (!strcmp(argv[i], "--active")) k = atoi(argv[i + 1]); if (!strcmp(argv[i], "--budget")) budget = atof(argv[i + 1]); if (!strcmp(argv[i], "--path")) rp = argv[i + 1]; }
  char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1); if (sl < 0) return 3; self[sl] = 0;
  const int W = rp ? 1 : 8; struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  std::vector<std::string> todo;
  std::string cur(NPT, '-');
  auto add = [&](const std::string &s) { for (const char *x : {"--", "-e", "-n"}) todo.push_back(s + x); if (s[TH0] != '-' || s[TH_TLS_AFTER] != '-' || s[TH_TLS_BEFORE] != '-' || s[TH_KEY] != '-') todo.push_back(s + "u-"); };
  struct Rec { static void go(std::string &c, int p, int left, const std::function<void(const std::string &)> &f) { if (p == NPT) { f(c); return; } go(c, p + 1, left, f); if (left) for (const char *o = OPS + 1; *o; o++) { c[p] = *o; go(c, p + 1, left - 1, f); c[p] = '-'; } } };
  if (rp) todo.push_back(rp); else Rec::go(cur, 0, k, add);
  std::vector<Shared *> ms; std::vector<int> fds; std::vector<std::thread> ws; std::atomic<size_t> next{0}; std::atomic<long> n{0}; std::atomic<bool> stop{false}, capped{false};
  // workers are processes: the model's log pointer is global
  struct Out { long n; int bad, capped; char msg[700], sc[40]; };
  Out *outs = (Out *)mmap(0, sizeof(Out) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  size_t *nx = (size_t *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int w = 0; w < W; w++) if (!fork()) {
    int fd = memfd_create("life", 0); if (ftruncate(fd, sizeof(Shared))) _exit(3);
    Shared *m = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    for (;;) {
      size_t i = __atomic_fetch_add(nx, 1, __ATOMIC_RELAXED); if (i >= todo.size()) break;
      struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); if (t.tv_sec - t0.tv_sec > budget) { outs[w].capped = 1; break; }
      std::string e = one(fd, m, self, todo[i]); outs[w].n++;
      if (!e.empty()) { for (auto &c : e) if (c == '"' || c == '\\' || (unsigned char)c < 32) c = ' '; snprintf(outs[w].msg, sizeof outs[w].msg, "%s", e.c_str()); snprintf(outs[w].sc, sizeof outs[w].sc, "%s", todo[i].c_str()); outs[w].bad = 1; *nx = todo.size(); break; }
    }
    _exit(0);
  }
  while (wait(0) > 0) {}
  long tot = 0; int bad = -1, cap = 0;
  for (int w = 0; w < W; w++) { tot += outs[w].n; if (outs[w].bad && bad < 0) bad = w; cap |= outs[w].capped; }
  std::string samples; for (size_t i = todo.size() / 3; i < todo.size(); i += todo.size() / 3 + 1) samples += (samples.empty() ? "\"" : ",\"") + todo[i] + "\"";
  printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"samples\":[%s],\"capped\":%s", tot, tot - 1, samples.c_str(), cap ? "true" : "false");
  if (bad >= 0) {
    std::string d; for (int p = 0; p < NPT; p++) if (outs[bad].sc[p] != '-') d += std::string(d.empty() ? "" : ", ") + PN[p] + ": " + outs[bad].sc[p];
    printf(",\"violation\":{\"message\":\"%s; operations (R fresh context, S keep/step one, N keep one that uses another while it unwinds, W resume with a function, D destroy): %s\",\"replay\":[\"--path\",\"%s\"]}", outs[bad].msg, d.c_str(), outs[bad].sc);
  }
  printf("}\n");
  return bad >= 0;
}
