// Explicit-state model checker for the context API, bound to the real implementation.
//
// A boring reference model (struct State, step()) describes what any program over contexts must
// observe.  Its reachable states are enumerated exhaustively within bounds; every transition is then
// executed on the real library in lockstep (path to the state + the transition + a model-computed
// drain), and every observation of the real run is compared with the one the model predicts.
//
// Compile with -DAPI=0 (fiber) or -DAPI=1 (call/cc); -DALLOC=0..4; C++11 and later.
#ifndef API
#define API 0
#endif
#ifndef ALLOC
#define ALLOC 0 /* 0 tracked arena, 1 fixedsize, 2 protected, 3 pooled, 4 segmented */
#endif
#if API == 0
#include <boost/context/fiber.hpp>
#else
#include <boost/context/continuation.hpp>
#endif
#ifdef SHADOW_STACK_SYSCALL
namespace shstk { extern long live; }
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#if ALLOC == 4
#include <boost/context/segmented_stack.hpp>
#endif
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
#include <algorithm>
#include <map>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>

namespace bc = boost::context;
#if API == 0
typedef bc::fiber Ctx;
#else
typedef bc::continuation Ctx;
#endif
#define NOINLINE __attribute__((noinline))
#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#if defined(__SANITIZE_THREAD__)
#define HAVE_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define HAVE_TSAN 1
#endif
#endif
#ifndef HAVE_ASAN
#define HAVE_ASAN 0
#endif
#ifndef HAVE_TSAN
#define HAVE_TSAN 0
#endif
// ------------------------------------------------------------------ model
enum { MAXC = 8, MAXT = 3, MAXF = 6 };
enum Code { NEW, RES, RWITH, CALL, LEAVE, RETO, RET, DEL, HOLD, TAKE, THROW, SW, TEND, DEEP, ENDP, NCODES };
static const char *const code_names[] = {"NEW", "RES", "RWITH", "CALL", "LEAVE", "RETO", "RET", "DEL", "HOLD", "TAKE", "THROW", "SW", "TEND", "DEEP", "END"};
struct Op { signed char c, a, b, d; };
struct Frame { char k; signed char held; };
struct MC { char st; unsigned char nf; unsigned char hist; signed char lf; Frame f[MAXF]; };  // st: '-' free, 'n' fresh, 's' suspended, 'r' running, 'h' held
struct State { signed char T, N, ct; signed char tcur[MAXT]; char tst[MAXT]; MC c[MAXC]; };
struct Bounds { int N, T, F, depth; unsigned mask; std::string kinds; int newforms, rwforms, delforms; int hist; long maxstates; };
static Bounds B;
enum Ev { E_OPF = 1, E_DLV, E_GD, E_CATCH, E_RTH, E_ONT, E_ENTRY, E_HELP, E_NEWED, E_DELD, E_DEEP };
static const char *const ev_names[] = {"?", "op-fetch", "delivered", "guard-destroyed", "caught", "rethrow", "ontop-called", "entry", "helper", "created", "destroy-returned", "deep"};
struct Event { unsigned char t; signed char a, b, c; };
struct Exp { std::vector<Event> ev; std::vector<unsigned> live; };
static void ev(Exp *e, int t, int a, int b, int c) { if (e) { Event x = {(unsigned char)t, (signed char)a, (signed char)b, (signed char)c}; e->ev.push_back(x); } }

static void m_init(State &s) {
  memset(&s, 0, sizeof s);
  s.T = B.T; s.N = B.N; s.ct = 0;
  for (int i = 0; i < B.T + B.N; i++) { s.c[i].st = '-'; s.c[i].lf = -1; for (int j = 0; j < MAXF; j++) s.c[i].f[j].held = -1; }
  for (int t = 0; t < B.T; t++) { s.tcur[t] = t; s.tst[t] = t ? '0' : 'r'; s.c[t].st = 'r'; s.c[t].nf = 1; s.c[t].f[0].k = 'M'; }
}
static int ncx(const State &s) { return s.T + s.N; }
static bool in_slot(const State &s, int x) { return s.c[x].st == 's' || s.c[x].st == 'n'; }
static void clr(MC &c) { memset(&c, 0, sizeof c); c.st = '-'; c.lf = -1; for (int j = 0; j < MAXF; j++) c.f[j].held = -1; }
static void m_unwind(State &s, int x, Exp *e);
static void m_pop(State &s, int x, Exp *e, bool exc) {  // leave the top frame of x (exc: by an exception other than one its own try catches)
  MC &c = s.c[x];
  int i = c.nf - 1;
  char k = c.f[i].k;
  int h = c.f[i].held;
  c.f[i].held = -1;
  if (h >= 0) m_unwind(s, h, e);
  ev(e, E_GD, x, i, k);
  if (k == 'd') ev(e, E_HELP, x, i, 0);
  if (exc && k == 'r') ev(e, E_RTH, x, i, 0);
  c.f[i].k = 0;
  c.nf--;
}
static void m_unwind(State &s, int x, Exp *e) {
  MC &c = s.c[x];
  while (c.nf > 0 && c.f[c.nf - 1].k != 'P') m_pop(s, x, e, true);
  clr(c);
}
static unsigned m_live(const State &s) { unsigned m = 0; for (int i = s.T; i < ncx(s); i++) if (s.c[i].st != '-') m |= 1u << i; return m; }
static void m_fetch(const State &s, Exp *e) { int r = s.tcur[(int)s.ct]; if (e) { ev(e, E_OPF, r, s.c[r].nf - 1, s.c[r].f[s.c[r].nf - 1].k); e->live.push_back(m_live(s)); } }
// x starts/continues running, resumed by `from` (-1: by something that is gone or by nothing)
static void m_enter(State &s, int x, int from, Exp *e) {
  MC &c = s.c[x];
  s.tcur[(int)s.ct] = x;
  if (c.st == 'n') {
    c.st = 'r';
    c.nf = 1; c.f[0].k = 'B'; c.f[0].held = -1;
    ev(e, E_ENTRY, x, 0, 0);
  }
  c.st = 'r';
  ev(e, E_DLV, x, from >= 0, from);
}
static void m_step(State &s, Op o, Exp *e) {
  int r = s.tcur[(int)s.ct];
  MC &cr = s.c[r];
  switch (o.c) {
    case NEW:
      clr(s.c[o.a]);
      s.c[o.a].st = 'n';
      ev(e, E_NEWED, o.a, 0, 0);
      if (API == 1) { cr.st = 's'; if (B.hist) { cr.hist &= ~1; } m_enter(s, o.a, r, e); }
      break;
    case RES: {
      cr.st = 's';
      MC &cx = s.c[o.a];
      if (B.hist) { cx.hist &= ~1; if (B.hist > 1) cx.lf = r; }
      m_enter(s, o.a, r, e);
      break;
    }
    case RWITH: {
      cr.st = 's';
      MC &cx = s.c[o.a];
      if (B.hist) { cx.hist |= 1; if (B.hist > 1) cx.lf = r; }
      if (cx.st == 'n') { cx.nf = 1; cx.f[0].k = 'P'; cx.f[0].held = -1; }
      cx.st = 'r';
      cx.f[cx.nf].k = 'o'; cx.f[cx.nf].held = -1; cx.nf++;
      s.tcur[(int)s.ct] = o.a;
      ev(e, E_ONT, o.a, cx.nf - 1, r);
      break;
    }
    case CALL: cr.f[cr.nf].k = o.a; cr.f[cr.nf].held = -1; cr.nf++; break;
    case LEAVE: m_pop(s, r, e, false); break;
    case RETO: {
      if (o.a >= 0) s.c[o.a].st = 'h';
      m_pop(s, r, e, false);
      if (o.a >= 0) s.c[o.a].st = 's' == 's' ? (s.c[o.a].nf ? 's' : 'n') : 's';
      if (cr.f[cr.nf - 1].k == 'P') { cr.f[cr.nf - 1].k = 'B'; ev(e, E_ENTRY, r, 0, 0); }
      ev(e, E_DLV, r, o.a >= 0, o.a);
      break;
    }
    case RET:
      m_pop(s, r, e, false);
      clr(cr);
      if (B.hist && o.a >= s.T) s.c[o.a].hist &= ~1;
      m_enter(s, o.a, -1, e);
      break;
    case DEL: m_unwind(s, o.a, e); ev(e, E_DELD, o.a, 0, 0); break;
    case HOLD: s.c[o.a].st = 'h'; cr.f[cr.nf - 1].held = o.a; break;
    case TAKE: { int h = cr.f[cr.nf - 1].held; cr.f[cr.nf - 1].held = -1; s.c[h].st = s.c[h].nf ? 's' : 'n'; break; }
    case THROW: {
      for (;;) {
        int i = cr.nf - 1;
        char k = cr.f[i].k;
        if (k == 'o' && B.hist) cr.hist |= 2;
        if (k == 't') { m_pop(s, r, e, false); ev(e, E_CATCH, r, i, 0); break; }
        m_pop(s, r, e, true);
      }
      break;
    }
    case SW: s.ct = o.a; if (s.tst[(int)o.a] == '0') s.tst[(int)o.a] = 'r'; break;
    case TEND: s.tst[(int)s.ct] = 'e'; s.c[r].st = 'e'; s.ct = o.a; ev(e, E_GD, r, 0, 'M'); break;
    case DEEP: if (B.hist) cr.hist |= 4; ev(e, E_DEEP, r, o.a, 0); break;
  }
  if (o.c != ENDP) m_fetch(s, e);
}
static bool allowed(int code) { return (B.mask >> code) & 1; }
static bool can_switch_to(const State &s, int x) { return in_slot(s, x) && (x >= s.T || x == s.ct); }
static void m_enabled(const State &s, std::vector<Op> &out) {
  out.clear();
  int r = s.tcur[(int)s.ct];
  const MC &cr = s.c[r];
  const Frame &top = cr.f[cr.nf - 1];
  int n = ncx(s);
#define ADD(C, A, BB) do { Op o_ = {(signed char)(C), (signed char)(A), (signed char)(BB), 0}; out.push_back(o_); } while (0)
  if (allowed(NEW)) {
    int x = -1;
    for (int i = s.T; i < n; i++) if (s.c[i].st == '-') { x = i; break; }
    if (x >= 0) for (int v = 0; v < B.newforms; v++) ADD(NEW, x, v);
  }
  if (allowed(RES)) for (int x = 0; x < n; x++) if (can_switch_to(s, x)) ADD(RES, x, 0);
  if (allowed(RWITH)) for (int x = 0; x < n; x++) if (can_switch_to(s, x) && s.c[x].nf + (s.c[x].st == 'n' ? 1 : 0) < B.F) for (int v = 0; v < B.rwforms; v++) ADD(RWITH, x, v);
  if (allowed(CALL) && cr.nf < B.F) for (size_t i = 0; i < B.kinds.size(); i++) ADD(CALL, B.kinds[i], 0);
  if (top.k == 'p' || top.k == 't' || top.k == 'r' || top.k == 'd' || top.k == 'g') ADD(LEAVE, 0, 0);
  if (top.k == 'o') { for (int x = 0; x < n; x++) if (in_slot(s, x) && (x >= s.T || x == s.ct)) ADD(RETO, x, 0); ADD(RETO, -1, 0); }
  if (top.k == 'B' && allowed(RET)) for (int x = 0; x < n; x++) if (can_switch_to(s, x)) ADD(RET, x, 0);
  if (allowed(DEL)) for (int x = s.T; x < n; x++) if (in_slot(s, x)) for (int v = 0; v < B.delforms; v++) ADD(DEL, x, v);
  if (allowed(HOLD) && top.held < 0) for (int x = s.T; x < n; x++) if (in_slot(s, x)) ADD(HOLD, x, 0);
  if (allowed(HOLD) && top.held >= 0) ADD(TAKE, 0, 0);
  if (allowed(THROW)) for (int i = 0; i < cr.nf; i++) if (cr.f[i].k == 't') { ADD(THROW, 0, 0); break; }
  if (allowed(SW)) for (int t = 0; t < s.T; t++) if (t != s.ct && s.tst[t] != 'e') ADD(SW, t, 0);
  if (allowed(TEND) && s.ct != 0 && r == s.ct && cr.nf == 1 && top.held < 0) ADD(TEND, 0, 0);
  if (allowed(DEEP)) ADD(DEEP, 0, 0);
}
// operations that bring any state back to "only the main contexts exist"
static void m_drain(State s, int mode, std::vector<Op> &out) {
#define DO(C, A, BB) do { Op o_ = {(signed char)(C), (signed char)(A), (signed char)(BB), 0}; out.push_back(o_); m_step(s, o_, 0); } while (0)
  int guard = 0;
  for (int tt = s.T - 1; tt >= 0; tt--) {
    if (tt && (s.tst[tt] == '0' || s.tst[tt] == 'e')) continue;
    if (s.ct != tt) DO(SW, tt, 0);
    for (;;) {
      if (++guard > 400) { fprintf(stderr, "drain does not terminate\n"); abort(); }
      int r = s.tcur[(int)s.ct];
      const MC &cr = s.c[r];
      Frame top = cr.f[cr.nf - 1];
      if (mode == 0 && r != tt) { DO(RES, tt, 0); continue; }
      if (top.k == 'p' || top.k == 't' || top.k == 'r' || top.k == 'd' || top.k == 'g') { DO(LEAVE, 0, 0); continue; }
      if (top.k == 'o') {
        int y = -1;
        if (r != tt) y = tt; else for (int x = s.T; x < ncx(s); x++) if (in_slot(s, x)) { y = x; break; }
        DO(RETO, y, 0);
        continue;
      }
      if (top.k == 'B') { DO(RET, tt, 0); continue; }
      // main context of thread tt
      if (top.held >= 0) { DO(TAKE, 0, 0); continue; }
      if (tt) { DO(TEND, 0, 0); break; }
      int x;
      for (x = s.T; x < ncx(s); x++) if (in_slot(s, x)) break;
      if (x == ncx(s)) break;
      if (mode == 0) DO(DEL, x, x % 3); else DO(RES, x, 0);
    }
  }
  DO(ENDP, 0, 0);
}
static std::string key(const State &s) {
  std::string k;
  k += (char)s.ct;
  for (int t = 0; t < s.T; t++) { k += (char)s.tcur[t]; k += s.tst[t]; }
  for (int i = 0; i < ncx(s); i++) { const MC &c = s.c[i]; k += c.st; k += (char)c.nf; k += (char)c.hist; k += (char)c.lf; for (int j = 0; j < c.nf; j++) { k += c.f[j].k; k += (char)c.f[j].held; } }
  return k;
}
static std::string opstr(Op o) { char b[64]; if (o.c == CALL) snprintf(b, sizeof b, "CALL:%c", o.a); else if (o.c == LEAVE || o.c == TAKE || o.c == THROW || o.c == ENDP) snprintf(b, sizeof b, "%s", code_names[(int)o.c]); else snprintf(b, sizeof b, "%s:%d:%d", code_names[(int)o.c], o.a, o.b); return b; }
static std::string pathstr(const std::vector<Op> &p) { std::string r; for (size_t i = 0; i < p.size(); i++) { if (i) r += ' '; r += opstr(p[i]); } return r; }
// ------------------------------------------------------------------ shared report area
struct Shared {
  volatile long paths, ops, done, capped;
  volatile int state;  // 0 idle 1 running 2 violation
  int plen;
  Op path[4096];
  char msg[512];
};
static Shared *sh;
// ------------------------------------------------------------------ real run
static const std::vector<Op> *rp;
static const Exp *rx;
static volatile size_t pc, ei, li;
static volatile long live_new, live_exc, live_E, live_fn, live_ont;
static unsigned live_stacks, live_closures;
static int entry_calls[MAXC];
static int g_repeat_from = -1, g_repeat_to = -1, g_repeat_left = 0;  // pumping
static size_t g_rep_ei, g_rep_li;
static Ctx *slots;
alignas(Ctx) static unsigned char slotmem[sizeof(Ctx) * MAXC];

static NOINLINE void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
#include <stdarg.h>
void fail(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char tmp[400];
  vsnprintf(tmp, sizeof tmp, fmt, ap);
  va_end(ap);
  snprintf(sh->msg, sizeof sh->msg, "after %d operations: %s", (int)pc, tmp);
  sh->state = 2;
  _exit(42);
}
static NOINLINE const Event &log_event(int t, int a, int b, int c, bool matchc = true) {
  if (ei >= rx->ev.size()) fail("unexpected event %s(%d,%d,%d) after the end", ev_names[t], a, b, c);
  const Event &x = rx->ev[ei];
  ei = ei + 1;
  if (x.t != t || x.a != (signed char)a || x.b != (signed char)b || (matchc && x.c != (signed char)c))
    fail("expected %s(%d,%d,%d) but observed %s(%d,%d,%d)", ev_names[x.t], x.a, x.b, x.c, ev_names[t], a, b, c);
  return x;
}
// live C++ allocations and exception objects
#if !HAVE_TSAN
void *operator new(std::size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); __atomic_fetch_add(&live_new, 1, __ATOMIC_RELAXED); return p; }
void operator delete(void *p) noexcept { if (p) { __atomic_fetch_sub(&live_new, 1, __ATOMIC_RELAXED); free(p); } }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }
#endif
#if !HAVE_ASAN && !HAVE_TSAN
extern "C" void *__cxa_allocate_exception(std::size_t n) noexcept {
  static void *(*real)(std::size_t) = 0;
  if (!real) *(void **)&real = dlsym(RTLD_NEXT, "__cxa_allocate_exception");
  __atomic_fetch_add(&live_exc, 1, __ATOMIC_RELAXED);
  return real(n);
}
extern "C" void __cxa_free_exception(void *p) noexcept {
  static void (*real)(void *) = 0;
  if (!real) *(void **)&real = dlsym(RTLD_NEXT, "__cxa_free_exception");
  __atomic_fetch_sub(&live_exc, 1, __ATOMIC_RELAXED);
  real(p);
}
#endif
struct EhGlobals { void *caught; unsigned uncaught; };
static NOINLINE EhGlobals *eh() { return (EhGlobals *)__cxxabiv1::__cxa_get_globals(); }

#if ALLOC == 4
// segments come from mmap(); libgcc is linked statically, so these definitions are the ones it uses
#include <sys/syscall.h>
static volatile long live_maps, live_mapped;
extern "C" void *mmap(void *, std::size_t, int, int, int, off_t) noexcept __attribute__((no_split_stack));
extern "C" int munmap(void *, std::size_t) noexcept __attribute__((no_split_stack));
extern "C" void *mmap(void *a, std::size_t n, int p, int f, int fd, off_t o) noexcept { void *r = (void *)syscall(SYS_mmap, a, n, p, f, fd, o); if (r != MAP_FAILED) { live_maps = live_maps + 1; live_mapped = live_mapped + (long)n; } return r; }
extern "C" int munmap(void *a, std::size_t n) noexcept { live_maps = live_maps - 1; live_mapped = live_mapped - (long)n; return (int)syscall(SYS_munmap, a, n); }
#endif
// stack memory
enum { NARENA = 24, STK = 40960, BAND = 512, SLOTSZ = STK + 2 * BAND };
static unsigned char *arena;
static char arena_used[NARENA], arena_dirty[NARENA];
static int arena_next;
struct Info { int live; int slot; void *sp; std::size_t size; void *lo; int closures; void *seg0; };
static Info info[MAXC];
static void arena_check(int i) {
  unsigned char *b = arena + (size_t)i * SLOTSZ;
  for (int j = 0; j < BAND; j += 8) if (*(uint64_t *)(b + j) != 0xC5C5C5C5C5C5C5C5ull || *(uint64_t *)(b + BAND + STK + j) != 0xC5C5C5C5C5C5C5C5ull) fail("memory next to a context stack was overwritten");
}
static void arena_check_free(int i) {
  arena_check(i);
  unsigned char *b = arena + (size_t)i * SLOTSZ + BAND;
  for (int j = 0; j < STK; j += 8) if (*(uint64_t *)(b + j) != 0xDDDDDDDDDDDDDDDDull) fail("memory of a released context stack was written after its release");
}
static void arena_init() {
  arena = (unsigned char *)mmap(0, (size_t)NARENA * SLOTSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < NARENA; i++) { memset(arena + (size_t)i * SLOTSZ, 0xC5, SLOTSZ); memset(arena + (size_t)i * SLOTSZ + BAND, 0xDD, STK); }
}
static unsigned char *arena_get(int id) {
  for (int k = 0; k < NARENA; k++) {
    int i = (arena_next + k) % NARENA;
    if (!arena_used[i]) {
      if (arena_dirty[i]) arena_check_free(i);
      arena_used[i] = 1; arena_dirty[i] = 1; arena_next = (i + 1) % NARENA; info[id].slot = i;
      return arena + (size_t)i * SLOTSZ + BAND;
    }
  }
  fprintf(stderr, "arena exhausted\n");
  abort();
}
static void arena_put(int i) { arena_check(i); memset(arena + (size_t)i * SLOTSZ + BAND, 0xDD, STK); arena_used[i] = 0; }
#if ALLOC == 1
typedef bc::fixedsize_stack Under;
#elif ALLOC == 2
typedef bc::protected_fixedsize_stack Under;
#elif ALLOC == 3
typedef bc::pooled_fixedsize_stack Under;
#elif ALLOC == 4
typedef bc::segmented_stack Under;
#endif
#if ALLOC == 0
struct Under { bc::stack_context allocate() { abort(); } void deallocate(bc::stack_context &) noexcept {} };
#endif
#if ALLOC == 3
static Under *pool_under;
#endif
static Under make_under() {
#if ALLOC == 3
  return *pool_under;
#elif ALLOC == 1 || ALLOC == 2
  return Under(HAVE_ASAN || HAVE_TSAN ? 262144 : 65536);
#elif ALLOC == 4
  return Under(16384);
#else
  return Under();
#endif
}
static void note_stack(int id, const bc::stack_context &s) {
  info[id].sp = s.sp; info[id].size = s.size; info[id].lo = (char *)s.sp - s.size;
#if ALLOC == 4
  info[id].seg0 = s.segments_ctx[0];
#endif
}
#ifdef VGSHIM      // the stacks announced to the debugger are the live ones
static void vg_check() {
#if ALLOC != 0
  if (vgshim::table().bad) fail("%s", vgshim::table().bad);
  int on = 0;
  for (int i = 0; i < MAXC; i++) if (live_stacks >> i & 1) { on++; int n = vgshim::announced(info[i].lo, info[i].sp, ALLOC == 2 ? 4096 : 0); if (n != 1) fail("the stack of context %d is announced %d times", i, n); }
  if (vgshim::table().live != on) fail("%ld stacks are announced, %d are live", vgshim::table().live, on);
#endif
}
#endif
struct TA {
  int id; unsigned magic; Under u;
  explicit TA(int i) : id(i), magic(0xA110C000u + i), u(make_under()) {}
  TA(const TA &o) : id(o.id), magic(o.magic), u(o.u) {}
  TA &operator=(const TA &) = delete;
  ~TA() { magic = 0xDEAD0000u; }
  void chk() const { if (magic != 0xA110C000u + id) fail("the allocator object used for context %d is not the one given at creation", id); }
  bc::stack_context allocate() {
    chk();
    if (info[id].live) fail("stack of context %d allocated twice", id);
    info[id].live = 1; live_stacks |= 1u << id;
#if ALLOC == 0
    bc::stack_context s;
    s.size = STK; s.sp = arena_get(id) + STK;
#else
    bc::stack_context s = u.allocate();
#endif
    note_stack(id, s);
#ifdef VGSHIM
    vg_check();
#endif
    return s;
  }
  void deallocate(bc::stack_context &s) noexcept {
    chk();
    if (!info[id].live) fail("stack of context %d given back twice", id);
    if (s.sp != info[id].sp || s.size != info[id].size) fail("stack of context %d given back with a different description", id);
#if ALLOC == 4 && 0
    if (s.segments_ctx[0] != info[id].seg0) fail("segments");
#endif
    if (info[id].closures) fail("stack of context %d given back while its function object exists", id);
    info[id].live = 0; live_stacks &= ~(1u << id);
#if ALLOC == 0
    arena_put(info[id].slot);
#else
    u.deallocate(s);
#endif
    // the description must not lie in the memory that was given back
    if (s.sp != info[id].sp || s.size != info[id].size) fail("the description of the stack of context %d changed while the stack was given back", id);
#ifdef VGSHIM
    vg_check();
#endif
  }
};
static NOINLINE void onstack(int id, const void *p, int nthreads) {
#if HAVE_ASAN
  (void)id; (void)p; (void)nthreads; return;  // locals may live on the fake stack
#elif ALLOC == 4 || defined(BOOST_USE_WINFIB)  // these bring their own stacks
  (void)id; (void)p; (void)nthreads;
#else
  for (int i = nthreads; i < B.T + B.N; i++) {
    bool in = info[i].live && p >= info[i].lo && p < info[i].sp;
    if (in != (i == id)) fail("code of context %d runs on the stack of another context", id);
  }
#endif
}
struct E { int v; E(int x) : v(x) { live_E = live_E + 1; } E(const E &o) : v(o.v) { live_E = live_E + 1; } ~E() { live_E = live_E - 1; } };
static NOINLINE void deliver(int me, Ctx &&c0) {
  Ctx c(std::move(c0));
  if ((bool)c0 || !!c0) fail("moved-from object is not empty");
  bool v = (bool)c;
  if (v == !c) fail("operator bool and operator! disagree");
  const Event &x = log_event(E_DLV, me, v, 0, false);
  if (v) {
    if (slots[(int)x.c]) fail("slot of context %d unexpectedly occupied", (int)x.c);
    slots[(int)x.c] = std::move(c);
    if ((bool)c) fail("moved-from object is not empty");
  }
}
static NOINLINE void interp(int me, int depth, char kind, const volatile unsigned *canary, Ctx *ret);
static int help_count;
static NOINLINE void helper_roundtrip(int rounds) {  // ping-pong a private context, then leave it suspended and destroy it
  struct Fn { int *n; Fn(int *p) : n(p) {} Ctx operator()(Ctx &&c) { struct G { int *n; ~G() { ++*n; } } g = {n}; (void)g; Ctx d(std::move(c)); for (;;) { ++*n; d = std::move(d).resume(); } } };
  int n = 0;
#if API == 0
  Ctx f(std::allocator_arg, bc::fixedsize_stack(HAVE_ASAN || HAVE_TSAN ? 262144 : 32768), Fn(&n));
  int total = rounds;
#else
  Ctx f = bc::callcc(std::allocator_arg, bc::fixedsize_stack(HAVE_ASAN || HAVE_TSAN ? 262144 : 32768), Fn(&n));
  int total = rounds + 1;
#endif
  for (int i = 0; i < rounds; i++) { if (!f) fail("helper context lost"); f = std::move(f).resume(); }
  if (!f) fail("helper context lost");
  f = Ctx();
  if (n != total + 1) fail("helper context resumed from a destructor ran %d steps instead of %d", n, total + 1);
}
struct Guard {
  int ctx, depth; char k;
  Guard(int c, int d, char kk) : ctx(c), depth(d), k(kk) {}
  ~Guard() {
    log_event(E_GD, ctx, depth, k);
    if (k == 'd') { helper_roundtrip(2); log_event(E_HELP, ctx, depth, 0); }
  }
};
static unsigned scramble(unsigned a, unsigned b, unsigned c) { unsigned h = 2166136261u; h = (h ^ a) * 16777619u; h = (h ^ b) * 16777619u; h = (h ^ c) * 16777619u; return h; }
struct Locals {
  volatile unsigned w[24]; unsigned s; int me, depth;
  Locals(int m, int d) : s(scramble(m, d, (unsigned)pc)), me(m), depth(d) { for (unsigned i = 0; i < 24; i++) w[i] = scramble(s, i, 7); }
  NOINLINE void check() const { for (unsigned i = 0; i < 24; i++) if (w[i] != scramble(s, i, 7)) fail("locals of context %d frame %d changed while it was suspended", me, depth); }
};
struct Entry {  // only instances made by the library (copies / moved-to) count as "the stored function object"
  int id; unsigned magic; bool orig; unsigned char pad[40];
  void born() { live_fn = live_fn + 1; info[id].closures++; live_closures |= 1u << id; }
  explicit Entry(int i) : id(i), magic(0xFEED0000u + i), orig(true) { memset(pad, i, sizeof pad); live_fn = live_fn + 1; }
  Entry(const Entry &o) : id(o.id), magic(o.magic), orig(false) { o.chk(); memcpy(pad, o.pad, sizeof pad); born(); }
  Entry(Entry &&o) : id(o.id), magic(o.magic), orig(false) { o.chk(); memcpy(pad, o.pad, sizeof pad); born(); }
  ~Entry() { chk(); magic = 0; live_fn = live_fn - 1; if (!orig && --info[id].closures == 0) live_closures &= ~(1u << id); }
  void chk() const { if (magic != 0xFEED0000u + id || pad[39] != (unsigned char)id) fail("function object of context %d damaged", id); }
  Ctx operator()(Ctx &&c) {
    chk();
    log_event(E_ENTRY, id, 0, 0);
    if (entry_calls[id]++) fail("entry function of context %d invoked twice", id);
    int x = 0; onstack(id, &x, B.T);
    deliver(id, std::move(c));
    Ctx ret;
    interp(id, 0, 'B', &magic, &ret);
    chk();
    return ret;
  }
};
template <int PAD> struct Ontop {
  int tgt, depth; unsigned magic; unsigned char pad[PAD];
  Ontop(int t, int d) : tgt(t), depth(d), magic(0x0707u + 256u * (unsigned)t) { memset(pad, 0x3c, sizeof pad); live_ont = live_ont + 1; }
  Ontop(const Ontop &o) : tgt(o.tgt), depth(o.depth), magic(o.magic) { o.chk(); memcpy(pad, o.pad, PAD); live_ont = live_ont + 1; }
  ~Ontop() { chk(); magic = 0xBADBAD; pad[0] = pad[PAD - 1] = 0; live_ont = live_ont - 1; }
  void chk() const { if (magic != 0x0707u + 256u * (unsigned)tgt || pad[0] != 0x3c || pad[PAD - 1] != 0x3c) fail("the function running on top of context %d was destroyed or damaged while in use", tgt); }
  Ctx operator()(Ctx &&c) const {
    chk();
    int x = 0; onstack(tgt, &x, B.T);
    Ctx d(std::move(c));
    if (!d || (bool)c) fail("function on top of context %d did not receive its resumer", tgt);
    const Event &e = log_event(E_ONT, tgt, depth, 0, false);
    if (slots[(int)e.c]) fail("slot of context %d unexpectedly occupied", (int)e.c);
    slots[(int)e.c] = std::move(d);
    Ctx ret;
    interp(tgt, depth, 'o', &magic, &ret);
    chk();
    return ret;
  }
};
// a plain function on top: the target is taken from the script
static Ctx ontop_fn(Ctx &&c) {
  const Op &o = (*rp)[pc - 1];
  Ontop<4> f(o.a, o.d);
  return f(std::move(c));
}
// threads (only one runs at a time; SW hands over)
static pthread_mutex_t tm_ = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t tcv[MAXT] = {PTHREAD_COND_INITIALIZER, PTHREAD_COND_INITIALIZER, PTHREAD_COND_INITIALIZER};
static int tturn; static pthread_t tids[MAXT]; static char tstarted[MAXT];
static NOINLINE void thread_switch(int from, int to, bool wait);
static void *thread_body(void *a) {
  int t = (int)(intptr_t)a;
  pthread_mutex_lock(&tm_);
  while (tturn != t) pthread_cond_wait(&tcv[t], &tm_);
  pthread_mutex_unlock(&tm_);
  interp(t, 0, 'M', 0, 0);
  thread_switch(t, 0, false);
  return 0;
}
static NOINLINE void thread_switch(int from, int to, bool wait) {
  if (!tstarted[to] && to) { tstarted[to] = 1; if (pthread_create(&tids[to], 0, thread_body, (void *)(intptr_t)to)) abort(); }
  pthread_mutex_lock(&tm_);
  tturn = to;
  pthread_cond_signal(&tcv[to]);
  if (wait) while (tturn != from) pthread_cond_wait(&tcv[from], &tm_);
  pthread_mutex_unlock(&tm_);
}
static NOINLINE unsigned deep(unsigned n, unsigned seed) {  // about 1 KiB per level
  volatile unsigned w[256];
  for (unsigned i = 0; i < 256; i += 17) w[i] = scramble(n, i, seed);
  unsigned r = n ? deep(n - 1, seed) : 0;
  for (unsigned i = 0; i < 256; i += 17) if (w[i] != scramble(n, i, seed)) fail("deep recursion: stack contents damaged");
  return r + w[0];
}
static int deep_kb = 8;
static unsigned long main_limit = 0;
static NOINLINE unsigned deep_call(unsigned n, unsigned seed, int me, int depth, const volatile unsigned *canary) {
  volatile unsigned w[256];
  for (unsigned i = 0; i < 256; i += 17) w[i] = scramble(n, i, seed);
  unsigned r = 0;
  if (n) r = deep_call(n - 1, seed, me, depth, canary); else interp(me, depth, 'g', canary, 0);
  for (unsigned i = 0; i < 256; i += 17) if (w[i] != scramble(n, i, seed)) fail("deep recursion: stack contents damaged");
  return r + w[0];
}
static NOINLINE void *addr_of_frame() { return __builtin_frame_address(0); }
static long rep_first, rep_total;
static NOINLINE long heap_used() { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
static NOINLINE long address_space() { char b[64]; int f = open("/proc/self/statm", O_RDONLY); long n = read(f, b, sizeof b - 1); close(f); if (n <= 0) return 0; b[n] = 0; n = atol(b) * 4096;
#ifdef BOOST_USE_WINFIB
  n -= winshim::own_memory;  // the stand-in keeps released fibers for a while
#endif
  return n; }
static char *rep_top;
static NOINLINE Op fetch(int me, int depth, char kind) {
  log_event(E_OPF, me, depth, kind);
  unsigned live = rx->live[li];
  li = li + 1;
  if (live_stacks != live) fail("stacks held: %x, expected %x", live_stacks, live);
  if (live_closures != live) fail("function objects alive: %x, expected %x", live_closures, live);
  if (live_E) fail("%ld exception objects alive", (long)live_E);
#if !HAVE_ASAN && !HAVE_TSAN
  if (live_exc) fail("%ld exceptions still allocated", (long)live_exc);
#endif
  EhGlobals *g = eh();
  if (g->uncaught) fail("%u uncaught exceptions recorded", g->uncaught);
  if (g->caught) fail("an exception is still being handled");
  if ((int)pc == g_repeat_to && g_repeat_left > 0) {
    if (g_repeat_left > 1) {
      char *a = (char *)addr_of_frame();
#ifdef BOOST_USE_WINFIB
      char *top = me < B.T ? rep_top : winshim::stack_top();
#else
      char *top = me < B.T ? rep_top : (char *)info[me].sp;
#endif
      long used = (long)(top - a);  // the running context may be a new one in every cycle
#if !HAVE_ASAN && !HAVE_TSAN
      static long mem_first, heap_first;      // address space and heap in use: nothing may be lost per cycle
      if (g_repeat_left == rep_total - 4) { mem_first = address_space(); heap_first = heap_used(); }
      else if (g_repeat_left == 2 && rep_total > 20 && heap_used() - heap_first > rep_total * 8) fail("heap memory in use grows from cycle to cycle (%ld bytes after %ld cycles)", heap_used() - heap_first, rep_total);
      else if (g_repeat_left == 2 && rep_total > 20) { long g = address_space() - mem_first; if (g > (4l << 20) && g > rep_total * 8192) fail("memory in use grows from cycle to cycle (%ld bytes after %ld cycles)", g, rep_total); }
#endif
      if (rep_first < 0) rep_first = used;
      else if (used > rep_first + 1024) fail("stack usage of context %d grows from cycle to cycle", me);
    }
    g_repeat_left--;
    pc = g_repeat_from; ei = g_rep_ei; li = g_rep_li;
    sh->ops = sh->ops + 1;
  }
  if ((int)pc == g_repeat_from) { g_rep_ei = ei; g_rep_li = li; }
  Op o = (*rp)[pc];
  pc = pc + 1;
  return o;
}
#define OPS_CALLK(K) interp(me, depth + 1, K, canary, 0)
static NOINLINE void do_rwith(int me, Op op) {
  Ctx &s = slots[(int)op.a];
  switch (op.b) {
    case 0: { Ctx c = std::move(s).resume_with(Ontop<72>(op.a, op.d)); deliver(me, std::move(c)); break; }
    case 1: { Ontop<16> f(op.a, op.d); Ctx c = std::move(s).resume_with(f); f.chk(); deliver(me, std::move(c)); break; }
    case 2: { Ctx c = std::move(s).resume_with(ontop_fn); deliver(me, std::move(c)); break; }
    default: { const Ontop<4> f(op.a, op.d);
#if API == 1
      Ctx c = s.resume_with(f);
#else
      Ctx c = std::move(s).resume_with(f);
#endif
      f.chk(); deliver(me, std::move(c)); break; }
  }
}
static NOINLINE void do_new(int me, Op op) {
  int id = op.a;
  entry_calls[id] = 0;
  log_event(E_NEWED, id, 0, 0);
#if API == 0
#define CREATE(...) slots[id] = Ctx(std::allocator_arg, __VA_ARGS__)
#else
#define CREATE(...) do { Ctx c_ = bc::callcc(std::allocator_arg, __VA_ARGS__); deliver(me, std::move(c_)); } while (0)
#endif
  (void)me;
  switch (op.b) {
    case 0: CREATE(TA(id), Entry(id)); break;
    case 1: {  // preallocated
      TA a(id);
      bc::stack_context s = a.allocate();
      std::size_t off = 200 + 16 * (std::size_t)id;
      memset((char *)s.sp - off, 0x5a, off);
      CREATE(bc::preallocated((char *)s.sp - off, s.size - off, s), TA(id), Entry(id));
      break;
    }
    case 2: {  // named allocator and function object
      TA a(id); Entry f(id);
      CREATE(a, f);
      a.chk(); f.chk();
      break;
    }
    default: CREATE(TA(id), Entry(id)); break;
  }
}
void interp(int me, int depth, char kind, const volatile unsigned *canary, Ctx *ret) {
  Locals loc(me, depth);
  Guard g(me, depth, kind);
  Ctx held;
  unsigned cv = canary ? *canary : 0;
  for (;;) {
    loc.check();
    if (canary && *canary != cv) fail("the function object running in context %d was destroyed or damaged while in use", me);
    { int x = 0; onstack(me < B.T ? -1 : me, &x, B.T); }
    Op op = fetch(me, depth, kind);
    switch (op.c) {
      case NEW: do_new(me, op); break;
      case RES: {
#if API == 1
        if (pc & 1) { Ctx c = slots[(int)op.a].resume(); if (slots[(int)op.a] && !(*rp)[pc - 1].d) {} deliver(me, std::move(c)); break; }
#endif
        Ctx c = std::move(slots[(int)op.a]).resume();
        deliver(me, std::move(c));
        break;
      }
      case RWITH: do_rwith(me, op); break;
      case CALL:
        if (op.a == 't') { try { OPS_CALLK('t'); } catch (E const &e) { if (e.v != 4711) fail("wrong exception object"); log_event(E_CATCH, me, depth + 1, 0); } catch (std::exception const &) { fail("forced unwinding or a foreign exception was caught as std::exception"); } }
        else if (op.a == 'r') { try { OPS_CALLK('r'); } catch (...) { log_event(E_RTH, me, depth + 1, 0); throw; } }
        else if (op.a == 'g') deep_call(deep_kb, (unsigned)pc, me, depth + 1, canary);  // suspended while far down a grown stack
        else OPS_CALLK(op.a);
        break;
      case LEAVE: return;
      case RETO: case RET: if (op.a >= 0) *ret = std::move(slots[(int)op.a]); return;
      case DEL:
        if (op.b == 0) { Ctx t(std::move(slots[(int)op.a])); }
        else if (op.b == 1) slots[(int)op.a] = Ctx();
        else { Ctx t; t = std::move(slots[(int)op.a]); Ctx e; t = std::move(e); if (t) fail("overwritten object still denotes a context"); }
        log_event(E_DELD, op.a, 0, 0);
        if (slots[(int)op.a]) fail("object denoting a destroyed context is not empty");
        break;
      case HOLD: held = std::move(slots[(int)op.a]); break;
      case TAKE: { for (int i = B.T; i < B.T + B.N; i++) {} slots[(int)op.a] = std::move(held); break; }
      case THROW: throw E(4711);
      case SW: thread_switch((int)op.b, op.a, true); break;
      case TEND: return;
      case DEEP: deep(deep_kb, (unsigned)pc); log_event(E_DEEP, me, op.a, 0); break;
      case ENDP: return;
      default: fail("bad op");
    }
  }
}
static long base_new;
static void annotate(std::vector<Op> &p, Exp &x) {  // computes the expected run of p and fills in target depths
  State s;
  m_init(s);
  m_fetch(s, &x);
  for (size_t i = 0; i < p.size(); i++) {
    Op &o = p[i];
    int r = s.tcur[(int)s.ct];
    if (o.c == RWITH) { const MC &c = s.c[(int)o.a]; o.d = c.st == 'n' ? 1 : c.nf; }
    if (o.c == TAKE) o.a = s.c[r].f[s.c[r].nf - 1].held;
    if (o.c == SW) o.b = s.ct;
    m_step(s, o, &x);
    if (o.c == ENDP) ev(&x, E_GD, 0, 0, 'M');
  }
}
static void run_path(std::vector<Op> p) {
  Exp x;
  annotate(p, x);
  rp = &p; rx = &x;
  pc = ei = li = 0;
  sh->plen = (int)std::min(p.size(), sizeof sh->path / sizeof(Op));
  memcpy(sh->path, &p[0], sh->plen * sizeof(Op));
  sh->state = 1;
  tturn = 0;
  memset(tstarted, 0, sizeof tstarted);
  rep_first = -1; rep_total = g_repeat_left; rep_top = (char *)addr_of_frame();
  long n0 = live_new;
#ifdef BOOST_USE_WINFIB
  long fib0 = winshim::live;
#endif
#ifdef SHADOW_STACK_SYSCALL
  long sh0 = shstk::live;
#endif
#if ALLOC == 4
  deep(deep_kb + 64, 5);  // the main stack keeps the segments it ever needed
  long m0 = live_maps, b0 = live_mapped;
#endif
  interp(0, 0, 'M', 0, 0);
  for (int t = 1; t < B.T; t++) if (tstarted[t]) pthread_join(tids[t], 0);
  if (ei != x.ev.size()) fail("run ended early: %d of %d expected events", (int)ei, (int)x.ev.size());
  for (int i = 0; i < B.T + B.N; i++) if (slots[i]) fail("slot of context %d not empty at the end", i);
  if (live_stacks) fail("stacks %x not given back", live_stacks);
  if (live_fn || live_closures) fail("%ld function objects not destroyed", (long)live_fn);
  if (live_ont) fail("%ld copies of on-top functions not destroyed", (long)live_ont);
  if (live_new != n0 && sh->paths > 0) fail("%ld heap objects leaked by the library", (long)live_new - n0);
#ifdef BOOST_USE_WINFIB
  if (winshim::live != fib0) fail("%ld fibers of the operating system not deleted", winshim::live - fib0);
#endif
#ifdef SHADOW_STACK_SYSCALL
  if (shstk::live != sh0) fail("%ld shadow stacks not released", shstk::live - sh0);
#endif
#if ALLOC == 4
  if (B.T == 1 && (live_maps != m0 || live_mapped != b0)) fail("%ld stack segments (%ld bytes) not released", (long)live_maps - m0, (long)live_mapped - b0);
#endif
  sh->paths = sh->paths + 1;
  sh->ops = sh->ops + (long)p.size();
  sh->state = 0;
}
static void check_arena() { for (int i = 0; i < NARENA; i++) if (!arena_used[i]) { if (arena_dirty[i]) arena_check_free(i); } }

// ------------------------------------------------------------------ exploration
struct Node { State s; int parent; Op op; int depth; };
static std::vector<Node> nodes;
static bool fixpoint = true;
static void build_graph() {
  std::unordered_map<std::string, int> seen;
  Node n0; m_init(n0.s); n0.parent = -1; n0.depth = 0; memset(&n0.op, 0, sizeof n0.op);
  nodes.push_back(n0);
  seen[key(n0.s)] = 0;
  std::vector<Op> ops;
  for (size_t i = 0; i < nodes.size(); i++) {
    if (nodes[i].depth >= B.depth) { fixpoint = false; continue; }
    if ((long)nodes.size() >= B.maxstates) { fixpoint = false; break; }
    m_enabled(nodes[i].s, ops);
    for (size_t k = 0; k < ops.size(); k++) {
      Node m; m.s = nodes[i].s;
      m_step(m.s, ops[k], 0);
      std::string kk = key(m.s);
      if (seen.find(kk) == seen.end()) { m.parent = (int)i; m.op = ops[k]; m.depth = nodes[i].depth + 1; seen[kk] = (int)nodes.size(); nodes.push_back(m); }
    }
  }
}
static void path_to(int i, std::vector<Op> &p) { p.clear(); while (nodes[i].parent >= 0) { p.push_back(nodes[i].op); i = nodes[i].parent; } std::reverse(p.begin(), p.end()); }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static double deadline;
static int W = 8, me_w;
static void child_setup() {
  slots = (Ctx *)slotmem;
  for (int i = 0; i < MAXC; i++) new (&slots[i]) Ctx();
#if ALLOC == 0
  arena_init();
#endif
#if ALLOC == 3
  pool_under = new Under(HAVE_ASAN || HAVE_TSAN ? 262144 : 65536);
#endif
  std::vector<Op> p; Op o = {ENDP, 0, 0, 0}; p.push_back(o);
  run_path(p);  // warm up lazily initialised library state
  sh->paths = 0;
  State s; m_init(s);
  std::vector<Op> ops; m_enabled(s, ops);
  if (!ops.empty()) { p.clear(); p.push_back(ops[0]); m_step(s, ops[0], 0); m_drain(s, 0, p); run_path(p); }
}
static void run_with_drains(const std::vector<Op> &pre, const State &s, int modes) {
  for (int m = 0; m < 2; m++) if (modes & (1 << m)) { std::vector<Op> p(pre); m_drain(s, m, p); run_path(p); }
}
static long n_trans;
static void work_graph() {
  std::vector<Op> ops, p;
  long t = 0;
  for (size_t i = 0; i < nodes.size(); i++) {
    if (nodes[i].depth >= B.depth) continue;
    m_enabled(nodes[i].s, ops);
    std::vector<Op> here(ops);
    for (size_t k = 0; k < here.size(); k++) {
      if (t++ % W != me_w) continue;
      if (now() > deadline) { sh->capped = 1; return; }
      path_to((int)i, p);
      p.push_back(here[k]);
      State s = nodes[i].s;
      m_step(s, here[k], 0);
      run_with_drains(p, s, 3);
      sh->done = sh->done + 1;
#if ALLOC == 0
      if (sh->done % 16 == 0) check_arena();
#endif
    }
  }
}
static long dfs_leaf;
static void dfs(const State &s, std::vector<Op> &p, int left) {
  if (left == 0) {
    if (dfs_leaf++ % W == me_w) {
      if (now() > deadline) { sh->capped = 1; return; }
      run_with_drains(p, s, (dfs_leaf / W) & 1 ? 1 : 2);
      sh->done = sh->done + 1;
#if ALLOC == 0
      if (sh->done % 16 == 0) check_arena();
#endif
    }
    return;
  }
  std::vector<Op> ops;
  m_enabled(s, ops);
  for (size_t k = 0; k < ops.size(); k++) {
    State n = s;
    m_step(n, ops[k], 0);
    p.push_back(ops[k]);
    dfs(n, p, left - 1);
    p.pop_back();
    if (sh->capped) return;
  }
}
// pumping: every cycle (prefix to a state, then a loop back to it) repeated many times
static long pump_n = 300, pump_idx; static int pump_len = 4, pump_pre = 2;
static void pump_cycles(const State &s0, const std::string &k0, const State &s, std::vector<Op> &p, size_t pre, int left) {
  if (p.size() > pre && key(s) == k0) {
    if (pump_idx++ % W == me_w) {
      if (now() > deadline) { sh->capped = 1; return; }
      std::vector<Op> q(p);
      m_drain(s, 0, q);
      g_repeat_from = (int)pre; g_repeat_to = (int)p.size(); g_repeat_left = (int)pump_n;
      run_path(q);
      g_repeat_from = g_repeat_to = -1;
      if (g_repeat_left) fail("pumping did not complete");
      sh->done = sh->done + 1;
    }
    return;
  }
  if (!left) return;
  std::vector<Op> ops;
  m_enabled(s, ops);
  for (size_t k = 0; k < ops.size(); k++) {
    State n = s; m_step(n, ops[k], 0);
    p.push_back(ops[k]);
    pump_cycles(s0, k0, n, p, pre, left - 1);
    p.pop_back();
    if (sh->capped) return;
  }
}
static void work_pump() {
  for (size_t i = 0; i < nodes.size(); i++) {
    if (nodes[i].depth > pump_pre) continue;
    std::vector<Op> p;
    path_to((int)i, p);
    pump_cycles(nodes[i].s, key(nodes[i].s), nodes[i].s, p, p.size(), pump_len);
    if (sh->capped) return;
  }
}
static bool parse_path(const char *t, std::vector<Op> &p) {
  std::string s(t);
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find(' ', i); if (j == std::string::npos) j = s.size();
    std::string w = s.substr(i, j - i);
    i = j + 1;
    if (w.empty()) continue;
    std::string nm = w.substr(0, w.find(':'));
    Op o = {-1, 0, 0, 0};
    for (int c = 0; c < NCODES; c++) if (nm == code_names[c]) o.c = c;
    if (o.c < 0) return false;
    size_t a = w.find(':');
    if (a != std::string::npos) {
      if (o.c == CALL) o.a = w[a + 1];
      else { o.a = atoi(w.c_str() + a + 1); size_t b = w.find(':', a + 1); if (b != std::string::npos) o.b = atoi(w.c_str() + b + 1); }
    }
    p.push_back(o);
  }
  return true;
}
static void jstr(const char *s) { putchar('"'); for (; *s; s++) { if (*s == '"' || *s == '\\') putchar('\\'); if ((unsigned char)*s >= 32) putchar(*s); } putchar('"'); }
int main(int argc, char **argv) {
  B.N = 2; B.T = 1; B.F = 3; B.depth = 1000; B.mask = (1u << NEW) | (1u << RES) | (1u << RET); B.kinds = "p"; B.newforms = 1; B.rwforms = 1; B.delforms = 1; B.hist = 0; B.maxstates = 2000000;
  std::string mode = "graph", replay; int L = 5; double budget = 60; long rep = 0; int rf = -1, rt = -1;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i]; const char *v = argv[i + 1];
    if (a == "--mode") mode = v;
    else if (a == "-N") B.N = atoi(v);
    else if (a == "-T") B.T = atoi(v);
    else if (a == "-F") B.F = atoi(v);
    else if (a == "--depth") B.depth = atoi(v);
    else if (a == "--kinds") B.kinds = v;
    else if (a == "--newforms") B.newforms = atoi(v);
    else if (a == "--rwforms") B.rwforms = atoi(v);
    else if (a == "--delforms") B.delforms = atoi(v);
    else if (a == "--hist") B.hist = atoi(v);
    else if (a == "--maxstates") B.maxstates = atol(v);
    else if (a == "--len") L = atoi(v);
    else if (a == "--pump") pump_n = atol(v);
    else if (a == "--pumplen") pump_len = atoi(v);
    else if (a == "--pumppre") pump_pre = atoi(v);
    else if (a == "--budget") budget = atof(v);
    else if (a == "--workers") W = atoi(v);
    else if (a == "--deep") deep_kb = atoi(v);
    else if (a == "--mainlimit") main_limit = atoi(v) * 1024;  // with segmented stacks: the main stack can hardly grow by itself, so what it needs has to come in segments
    else if (a == "--path") replay = v;
    else if (a == "--repeat") { sscanf(v, "%d,%d,%ld", &rf, &rt, &rep); }
    else if (a == "--ops") {
      B.mask = 0; std::string s(v); size_t k = 0;
      while (k < s.size()) { size_t j = s.find(',', k); if (j == std::string::npos) j = s.size(); std::string w = s.substr(k, j - k); for (int c = 0; c < NCODES; c++) if (w == code_names[c]) B.mask |= 1u << c; k = j + 1; }
    } else { fprintf(stderr, "bad option %s\n", argv[i]); return 2; }
  }
  if (B.F > MAXF || B.N + B.T > MAXC || B.T > MAXT) { fprintf(stderr, "bounds too large\n"); return 2; }
  double t0 = now();
  deadline = t0 + budget;
  long trans = 0;
  std::vector<Op> rpath;
  if (mode == "replay") { if (!parse_path(replay.c_str(), rpath)) { fprintf(stderr, "bad path\n"); return 2; } W = 1; }
  else {
    if (mode != "dfs") build_graph();
    std::vector<Op> ops;
    for (size_t i = 0; i < nodes.size(); i++) { if (nodes[i].depth >= B.depth) continue; m_enabled(nodes[i].s, ops); trans += (long)ops.size(); }
  }
  n_trans = trans;
  Shared *all = (Shared *)mmap(0, sizeof(Shared) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids(W);
  fflush(stdout);
  for (int w = 0; w < W; w++) {
    pid_t c = fork();
    if (c == 0) {
      sh = &all[w]; me_w = w;
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      if (main_limit) { getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = main_limit; setrlimit(RLIMIT_STACK, &rl); }
      child_setup();
      sh->paths = 1; sh->done = 0; sh->ops = 0;
      if (mode == "graph") work_graph();
      else if (mode == "dfs") { State s; m_init(s); std::vector<Op> p; dfs(s, p, L); }
      else if (mode == "pump") work_pump();
      else { if (rf >= 0) { g_repeat_from = rf; g_repeat_to = rt; g_repeat_left = (int)rep; } run_path(rpath); sh->done = 1; }
#if ALLOC == 0
      sh->plen = 0; sh->state = 1; check_arena(); sh->state = 0;
#endif
      // leave through exit so that leak and race reports of a sanitizer are delivered
#if HAVE_ASAN || HAVE_TSAN
      exit(0);
#else
      _exit(0);
#endif
    }
    pids[w] = c;
  }
  // supervise: progress or death
  std::vector<long> last(W, -1); std::vector<double> since(W, now()); std::vector<int> status(W, -1); std::vector<char> hung(W, 0);
  int left = W;
  while (left) {
    int st; pid_t c = waitpid(-1, &st, WNOHANG);
    if (c > 0) { for (int w = 0; w < W; w++) if (pids[w] == c) { status[w] = st; left--; } continue; }
    usleep(5000);
    for (int w = 0; w < W; w++) if (status[w] == -1) { long v = all[w].paths + all[w].ops; if (v != last[w]) { last[w] = v; since[w] = now(); } else if (now() - since[w] > (mode == "replay" ? 90 : 40)) { hung[w] = 1; kill(pids[w], SIGKILL); since[w] = now() + 1000; } }
  }
  long paths = 0, ops = 0, done = 0, capped = 0; int bad = -1;
  for (int w = 0; w < W; w++) { paths += all[w].paths; ops += all[w].ops; done += all[w].done; capped |= all[w].capped; if (status[w] != 0 && (bad < 0 || all[w].plen < all[bad].plen)) bad = w; }
  printf("{\"mode\":\"%s\",\"states\":%ld,\"transitions\":%ld,\"done\":%ld,\"runs\":%ld,\"ops\":%ld,\"fixpoint\":%s,\"capped\":%s,\"maxdepth\":%d,\"wall\":%.2f", mode.c_str(), (long)nodes.size(), trans, done, paths, ops, fixpoint ? "true" : "false", capped ? "true" : "false", nodes.empty() ? L : nodes.back().depth, now() - t0);
  if (!nodes.empty()) {
    printf(",\"samples\":[");
    for (int k = 0; k < 3; k++) { std::vector<Op> p; path_to((int)(nodes.size() * (size_t)(k + 1) / 3 - 1), p); if (k) putchar(','); jstr(pathstr(p).c_str()); }
    printf("]");
  }
  if (bad >= 0) {
    std::vector<Op> p(all[bad].path, all[bad].path + all[bad].plen);
    char m[700];
    if (all[bad].state == 2) snprintf(m, sizeof m, "%s", all[bad].msg);
    else if (hung[bad]) snprintf(m, sizeof m, "no progress: control did not return (killed)");
    else if (WIFSIGNALED(status[bad])) snprintf(m, sizeof m, "process died with signal %d (%s)", WTERMSIG(status[bad]), strsignal(WTERMSIG(status[bad])));
    else snprintf(m, sizeof m, "process exited with status %d", WEXITSTATUS(status[bad]));
    printf(",\"violation\":{\"message\":"); jstr(m);
    printf(",\"path\":"); jstr(pathstr(p).c_str());
    if (mode == "pump") { printf(",\"pump\":%ld", pump_n); }
    printf("}");
  }
  printf("}\n");
  return bad >= 0 ? 1 : 0;
}
