// Sanitizer builds: (1) genuine errors on context stacks are reported, in every state of a context from
// a list; (2) create/finish/destroy cycles do not accumulate sanitizer resources.
#include <boost/context/fixedsize_stack.hpp>
#if API == 0
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#else
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#endif
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
namespace bc = boost::context;
#define NI __attribute__((noinline))
template <class F> static Ctx create(F &&f) {
#if API == 0
  return Ctx(std::allocator_arg, bc::fixedsize_stack(262144), std::forward<F>(f)).resume();
#else
  return bc::callcc(std::allocator_arg, bc::fixedsize_stack(262144), std::forward<F>(f));
#endif
}
#define FRESH(f) Ctx(std::allocator_arg, bc::fixedsize_stack(262144), f)
// ---------------------------------------------------------------- genuine errors
enum { NERR = 5, NPLACE = 9 };
static int err, place;
static volatile int idx, sink;
static int *volatile dangling;
NI static void leak_local() { int a[8]; for (int i = 0; i < 8; i++) a[i] = i; dangling = a; sink = a[idx & 3]; }
NI static int recurse(int n) { volatile char b[64]; for (int i = 0; i < 64; i++) b[i] = (char)i; return n ? recurse(n - 1) + b[3] : b[1]; }
NI static void bug() {
  sink = recurse(20);
  switch (err) {
    case 0: { volatile char a[16]; for (int i = 0; i < 16; i++) a[i] = 1; a[16 + idx] = 3; sink = a[2]; break; }
    case 1: { volatile char a[32]; for (int i = 0; i < 32; i++) a[i] = 1; sink = a[idx - 1]; break; }
    case 2: { volatile char a[40]; memset((char *)a, 1, sizeof a); volatile char b[8]; b[0] = 1; sink = a[40 + idx] + b[0]; break; }
    case 3: leak_local(); sink = *dangling; break;   // use after return (detected with fake stacks)
    case 4: { int *p = new int[4]; p[4 + idx] = 1; sink = p[1]; delete[] p; break; }
  }
}
static Ctx ontop(Ctx &&c) { Ctx d(std::move(c)); bug(); return d; }
struct Boom {};
static Ctx ontop_throw(Ctx &&c) { static Ctx *keep; keep = new Ctx(std::move(c)); (void)keep; throw Boom(); }
NI static void at_place() {
  switch (place) {
    case 0: { Ctx c = create([](Ctx &&x) { bug(); return std::move(x); }); break; }
    case 1: { Ctx c = create([](Ctx &&x) { x = std::move(x).resume(); bug(); return std::move(x); }); c = std::move(c).resume(); break; }
    case 2: { Ctx c = create([](Ctx &&x) { for (int i = 0; i < 3; i++) { Ctx d = create([](Ctx &&y) { sink = recurse(10); y = std::move(y).resume(); sink = recurse(5); return std::move(y); }); sink = recurse(3); d = std::move(d).resume(); } bug(); return std::move(x); }); break; }
    case 3: { Ctx c = create([](Ctx &&x) { x = std::move(x).resume(); return std::move(x); }); c = std::move(c).resume_with(ontop); break; }
    case 4: { Ctx c = create([](Ctx &&x) { try { recurse(10); throw Boom(); } catch (Boom &) {} bug(); return std::move(x); }); break; }
    case 5: { Ctx c = create([](Ctx &&x) { x = std::move(x).resume(); return std::move(x); }); c = Ctx(); bug(); break; }
    case 6: { Ctx c = create([](Ctx &&x) { return std::move(x); }); bug(); break; }
    case 7: { Ctx c = create([](Ctx &&x) { Ctx e = create([](Ctx &&y) { y = std::move(y).resume(); return std::move(y); }); e = Ctx(); bug(); return std::move(x); }); break; }
    case 8: { Ctx c = create([](Ctx &&x) { struct G { ~G() { bug(); } } g; (void)g; x = std::move(x).resume(); return std::move(x); }); c = Ctx(); break; }
  }
}
// ---------------------------------------------------------------- correct programs
struct Deep { int v; };
NI static void thrower(int n) { volatile char b[300]; for (int i = 0; i < 300; i++) b[i] = (char)i; volatile char c[24]; c[n & 7] = 1; if (!n) throw Deep{b[3]}; thrower(n - 1); sink = b[2] + c[1]; }
NI static int big(int n) { volatile char b[3000]; for (int i = 0; i < 3000; i++) b[i] = (char)(i + n); volatile char c[40]; c[n] = b[n]; return n ? big(n - 1) + c[n] : b[5]; }
NI static void exercise() { for (int i = 0; i < 3; i++) { try { thrower(20); } catch (Deep &) {} sink = big(6); } }
struct OnDie { ~OnDie() { exercise(); } };
enum { NFORM = 4, NCLEAN = 9 };
static int form;
template <class F> static Ctx createf(F &&f) {
  bc::fixedsize_stack a(262144);
#if API == 0
  switch (form) {
    case 0: return Ctx(std::forward<F>(f)).resume();
    case 1: return Ctx(std::allocator_arg, std::move(a), std::forward<F>(f)).resume();
    case 2: { bc::stack_context s = a.allocate(); return Ctx(std::allocator_arg, bc::preallocated(s.sp, s.size, s), std::move(a), std::forward<F>(f)).resume(); }
    default: { bc::stack_context s = a.allocate(); char *sp = (char *)s.sp - 1024; return Ctx(std::allocator_arg, bc::preallocated(sp, s.size - 1024, s), std::move(a), std::forward<F>(f)).resume(); }
  }
#else
  switch (form) {
    case 0: return bc::callcc(std::forward<F>(f));
    case 1: return bc::callcc(std::allocator_arg, std::move(a), std::forward<F>(f));
    case 2: { bc::stack_context s = a.allocate(); return bc::callcc(std::allocator_arg, bc::preallocated(s.sp, s.size, s), std::move(a), std::forward<F>(f)); }
    default: { bc::stack_context s = a.allocate(); char *sp = (char *)s.sp - 1024; return bc::callcc(std::allocator_arg, bc::preallocated(sp, s.size - 1024, s), std::move(a), std::forward<F>(f)); }
  }
#endif
}
static Ctx back;
static Ctx ontop_clean(Ctx &&c) { Ctx d(std::move(c)); exercise(); return d; }
NI static void clean_program(int k) {
  switch (k) {
    case 0: { Ctx c = createf([](Ctx &&x) { exercise(); return std::move(x); }); exercise(); break; }
    case 1: { Ctx c = createf([](Ctx &&x) { for (int i = 0; i < 3; i++) { exercise(); x = std::move(x).resume(); } exercise(); return std::move(x); }); while (c) { exercise(); c = std::move(c).resume(); } exercise(); break; }
    case 2: { Ctx c = createf([](Ctx &&x) { Ctx d = createf([](Ctx &&y) { exercise(); y = std::move(y).resume(); exercise(); return std::move(y); }); exercise(); x = std::move(x).resume(); exercise(); d = std::move(d).resume(); exercise(); return std::move(x); }); exercise(); c = std::move(c).resume(); exercise(); break; }
    case 3: { Ctx c = createf([](Ctx &&x) { exercise(); x = std::move(x).resume(); exercise(); return std::move(x); }); exercise(); c = std::move(c).resume_with(ontop_clean); exercise(); break; }
    case 4: { Ctx c = createf([](Ctx &&x) { OnDie g; (void)g; exercise(); x = std::move(x).resume(); return std::move(x); }); exercise(); c = Ctx(); exercise(); break; }
    case 5: { Ctx c = createf([](Ctx &&x) { try { x = std::move(x).resume(); } catch (Deep &) { exercise(); x = std::move(back); } exercise(); return std::move(x); }); exercise(); c = std::move(c).resume_with([](Ctx &&y) -> Ctx { back = std::move(y); thrower(9); return Ctx(); }); exercise(); break; }
    case 6: { Ctx c = createf([](Ctx &&x) { OnDie g; (void)g; Ctx d = createf([](Ctx &&y) { OnDie h; (void)h; exercise(); y = std::move(y).resume(); return std::move(y); }); exercise(); x = std::move(x).resume(); return std::move(x); }); exercise(); c = Ctx(); exercise(); break; }
    case 7: { Ctx c[4]; for (auto &e : c) e = createf([](Ctx &&x) { OnDie g; (void)g; exercise(); x = std::move(x).resume(); exercise(); x = std::move(x).resume(); return std::move(x); }); c[1] = std::move(c[1]).resume(); c[3] = std::move(c[3]).resume(); exercise(); c[1] = Ctx(); exercise(); c[0] = std::move(c[0]).resume(); c[3] = std::move(c[3]).resume(); exercise(); break; }
    case 8: { Ctx main_; Ctx c = createf([](Ctx &&x) { exercise(); x = std::move(x).resume_with(ontop_clean); exercise(); return std::move(x); }); exercise(); c = std::move(c).resume(); exercise(); break; }
  }
}
NI static void *clean_thread(void *a) { clean_program(*(int *)a); exercise(); return 0; }
// ---------------------------------------------------------------- races
static volatile int shared_word;
static int stage;
static void at_stage(int n) { while (__atomic_load_n(&stage, __ATOMIC_RELAXED) < n) usleep(100); }   // orders in time without synchronising
static void *racer(void *a) {
  int me = *(int *)a;
  if (me) at_stage(1);
  Ctx c = create([](Ctx &&x) { for (int i = 0; i < 50; i++) { shared_word = shared_word + 1; x = std::move(x).resume(); } return std::move(x); });
  while (c) c = std::move(c).resume();
  __atomic_fetch_add(&stage, 1, __ATOMIC_RELAXED);
  at_stage(2);
  return 0;
}
static void *nonracer(void *a) { volatile int *p = (volatile int *)a; Ctx c = create([p](Ctx &&x) { for (int i = 0; i < 50; i++) { *p = *p + 1; x = std::move(x).resume(); } return std::move(x); }); while (c) c = std::move(c).resume(); return 0; }
// ---------------------------------------------------------------- accumulation
enum { NPAT = 7 };
static long rss() { long a = 0, b = 0; FILE *f = fopen("/proc/self/statm", "r"); if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b * sysconf(_SC_PAGESIZE); }
NI static void pattern(int p) {
  switch (p) {
    case 0: { Ctx c = create([](Ctx &&x) { sink = recurse(3); return std::move(x); }); break; }
    case 1: { Ctx c = create([](Ctx &&x) { sink = recurse(3); x = std::move(x).resume(); return std::move(x); }); c = std::move(c).resume(); break; }
    case 2: { Ctx c = create([](Ctx &&x) { sink = recurse(3); x = std::move(x).resume(); return std::move(x); }); break; }
    case 3: {
#if API == 0
      Ctx c = FRESH([](Ctx &&x) { return std::move(x); });
#endif
      break;
    }
    case 4: { Ctx c = create([](Ctx &&x) { try { x = std::move(x).resume(); } catch (int) {} sink = recurse(3); return std::move(x); }); c = std::move(c).resume_with([](Ctx &&y) { return std::move(y); }); break; }
    case 5: { Ctx c = create([](Ctx &&x) { Ctx e = create([](Ctx &&y) { y = std::move(y).resume(); return std::move(y); }); x = std::move(x).resume(); e = std::move(e).resume(); return std::move(x); }); c = std::move(c).resume(); break; }
    case 6: { Ctx c = create([](Ctx &&x) { Ctx e = create([](Ctx &&y) { y = std::move(y).resume(); return std::move(y); }); x = std::move(x).resume(); return std::move(x); }); break; }  // nested destruction
  }
}
NI static long cycles(int p, int n) { for (int i = 0; i < n; i++) pattern(p); return rss(); }
int main(int argc, char **argv) {
  std::string mode = argc > 1 ? argv[1] : "errors", bad, samples; long n = 0, nt = 0; char rep[100] = "";
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  int o1 = argc > 2 ? atoi(argv[2]) : -1, o2 = argc > 3 ? atoi(argv[3]) : -1;
  static const char *const en[] = {"write past a local array", "read before a local array", "read past a local array", "use of a local after return", "write past a heap array"};
  static const char *const want[] = {"stack-buffer-overflow", "stack-buffer-", "stack-buffer-overflow", "stack-use-after-return", "heap-buffer-overflow"};
  static const char *const pl[] = {"in a new context", "in a resumed context", "in a context after other contexts ran", "in a function on top", "in a context after an exception", "in main after destroying a context", "in main after a context finished", "in a context after it destroyed another", "in a destructor during unwinding"};
  fflush(stdout);
  if (mode == "errors") {
    for (err = 0; err < NERR && bad.empty(); err++) for (place = 0; place < NPLACE && bad.empty(); place++) {
      if (o1 >= 0 && (err != o1 || place != o2)) continue;
      int fd[2]; if (pipe(fd)) return 3;
      pid_t p = fork();
      if (!p) { dup2(fd[1], 2); close(fd[0]); close(fd[1]); alarm(60); at_place(); _exit(0); }
      close(fd[1]);
      std::string out; char b[4096]; ssize_t r; while ((r = read(fd[0], b, sizeof b)) > 0) out.append(b, r);
      close(fd[0]);
      int st; waitpid(p, &st, 0);
      n++; nt++;
      std::string d = std::string(en[err]) + " " + pl[place];
      if (n <= 5 || n % 13 == 0) samples += (samples.empty() ? "\"" : ",\"") + d + "\"";
      if (out.find(want[err]) == std::string::npos) { bad = d + " was not reported as " + want[err]; snprintf(rep, sizeof rep, "\"errors\",%d,%d", err, place); if (getenv("SAN_SHOW")) fputs(out.c_str(), stderr); }
    }
  } else if (mode == "clean") {
    static const char *const fn[] = {"default stack", "stack allocator", "preallocated stack", "preallocated stack with a header"};
    static const char *const pn[] = {"exceptions in a new context", "exceptions in a resumed context", "nested contexts", "function on top", "unwinding", "exception from a function on top", "nested unwinding", "several contexts", "function on top of the resumer"};
    for (form = 0; form < NFORM && bad.empty(); form++) for (int k = 0; k < NCLEAN && bad.empty(); k++) for (int th = 0; th < 2 && bad.empty(); th++) {
      if (o1 >= 0 && (form != o1 || k != o2)) continue;
      if (o1 < 0 && th && k == 5) continue;
      int fd[2]; if (pipe(fd)) return 3;
      pid_t p = fork();
      if (!p) {
        dup2(fd[1], 2); close(fd[0]); close(fd[1]); alarm(60);
        if (th) { pthread_t t; pthread_create(&t, 0, clean_thread, &k); pthread_join(t, 0); } else clean_program(k);
        exercise(); _exit(0);
      }
      close(fd[1]);
      std::string out; char b[4096]; ssize_t r; while ((r = read(fd[0], b, sizeof b)) > 0) out.append(b, r);
      close(fd[0]);
      int st; waitpid(p, &st, 0);
      for (size_t w; (w = out.find("ASan doesn't fully support makecontext")) != std::string::npos;) { size_t b0 = out.rfind('\n', w), e0 = out.find('\n', w); b0 = b0 == std::string::npos ? 0 : b0 + 1; out.erase(b0, e0 == std::string::npos ? std::string::npos : e0 + 1 - b0); }
      n++; nt++;
      std::string d = std::string(pn[k]) + ", " + fn[form] + (th ? ", in a second thread" : "");
      if (n <= 3 || n % 17 == 0) samples += (samples.empty() ? "\"" : ",\"") + d + "\"";
      if (st || !out.empty()) {
        size_t e = out.find('\n'); std::string l = out.substr(0, e == 0 ? 0 : e); for (auto &ch : l) if (ch == '"' || ch == '\\' || (unsigned char)ch < 32) ch = ' ';
        size_t q = out.find("ERROR: "); if (q != std::string::npos) { l = out.substr(q, out.find('\n', q) - q); for (auto &ch : l) if (ch == '"' || ch == '\\' || (unsigned char)ch < 32) ch = ' '; }
        bad = "a correct program was reported or failed (" + d + "): " + l; snprintf(rep, sizeof rep, "\"clean\",%d,%d", form, k); if (getenv("SAN_SHOW")) fputs(out.c_str(), stderr);
      }
    }
  } else if (mode == "race") {
    for (int k = 0; k < 2 && bad.empty(); k++) {
      int fd[2]; if (pipe(fd)) return 3;
      pid_t p = fork();
      if (!p) {
        dup2(fd[1], 2); alarm(60);
        pthread_t a, b; int x = 0, y = k;
        pthread_create(&a, 0, k ? racer : nonracer, &x); pthread_create(&b, 0, k ? racer : nonracer, &y);
        pthread_join(a, 0); pthread_join(b, 0);
        exit(0);
      }
      close(fd[1]);
      std::string out; char b[4096]; ssize_t r; while ((r = read(fd[0], b, sizeof b)) > 0) out.append(b, r);
      close(fd[0]);
      int st; waitpid(p, &st, 0);
      n++; nt++;
      bool rep_ = out.find("data race") != std::string::npos;
      samples += k ? ",\"two threads race on a word inside contexts\"" : "\"two threads with contexts, no race\"";
      if (k && !rep_) bad = "a genuine data race between contexts of two threads was not reported";
      if (!k && (rep_ || st)) { bad = "a program without races was reported or failed"; fputs(out.c_str(), stderr); }
    }
  } else {
    int N = argc > 2 ? atoi(argv[2]) : 1500; int only = argc > 3 ? atoi(argv[3]) : -1;
    for (int p = 0; p < NPAT && bad.empty(); p++) {
      if (only >= 0 && p != only) continue;
      long g = 0; int rc = 0;
      int fd[2]; if (pipe(fd)) return 3;
      pid_t c = fork();
      if (!c) { close(fd[0]); alarm(120); cycles(p, N / 3); long a = rss(); cycles(p, N); g = rss() - a; if (write(fd[1], &g, sizeof g) < 0) {} exit(0); }
      close(fd[1]);
      if (read(fd[0], &g, sizeof g) != sizeof g) rc = 1;
      close(fd[0]);
      int st; waitpid(c, &st, 0);
      n += N; nt += N;
      char b[200]; snprintf(b, sizeof b, "pattern %d: %d cycles, resident memory grew by %ld KiB", p, N, g / 1024);
      samples += std::string(samples.empty() ? "\"" : ",\"") + b + "\"";
      if (rc || st) bad = std::string(b) + ": process failed";
      else if (g > 2048L * N) bad = std::string(b) + ": sanitizer resources accumulate";
      if (!bad.empty()) snprintf(rep, sizeof rep, "\"leak\",%d,%d", N, p);
    }
  }
  printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"samples\":[%s]", n, nt, samples.c_str());
  if (!bad.empty()) { printf(",\"violation\":{\"message\":\"%s\"", bad.c_str()); if (rep[0]) { std::string r(rep), q = "["; size_t k = 0; while (k < r.size()) { size_t j = r.find(',', k); if (j == std::string::npos) j = r.size(); std::string w = r.substr(k, j - k); q += (k ? "," : "") + (w[0] == '"' ? w : "\"" + w + "\""); k = j + 1; } printf(",\"replay\":%s]", q.c_str()); } printf("}"); }
  printf("}\n");
  return bad.empty() ? 0 : 1;
}
