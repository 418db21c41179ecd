// Many contexts alive at the same time: every number from a list x every order of resuming x every way to end x every
// placement (flat: all created by main; chain: each creates the next and waits for it; ring: control goes round).
// What ran, what was unwound and what was given back is compared with counters computed independently.
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/preallocated.hpp>
#if API == 0
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#else
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#endif
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
namespace bc = boost::context;
static char bad_[300];
static bool failed;
static void bad(char const * w, long a = 0, long b = 0) { if (!failed) { failed = true; snprintf(bad_, sizeof bad_, "%s (%ld, expected %ld)", w, a, b); } }
static std::size_t SS = 16384;
static char * arena; static std::size_t slots; static std::vector<unsigned> freel; static std::vector<unsigned char> used; static long held, allocs, frees;
struct Al {
  int tag;
  bc::stack_context allocate() {
    if (freel.empty()) throw std::bad_alloc();
    unsigned i = freel.back(); freel.pop_back(); used[i] = 1; ++held; ++allocs;
    bc::stack_context s; s.size = SS; s.sp = arena + (std::size_t)(i + 1) * SS; return s;
  }
  void deallocate(bc::stack_context & s) noexcept {
    std::size_t off = (char *)s.sp - arena; unsigned i = (unsigned)(off / SS - 1);
    if (off % SS || i >= slots || !used[i] || s.size != SS) { bad("a stack that is not held was given back", (long)i); return; }
    if (tag != 77) bad("an allocator other than the given one was used", tag, 77);
    used[i] = 0; freel.push_back(i); --held; ++frees;
  }
};
static long alive_fn, alive_loc;
static std::vector<int> runs, unw, fin;
struct Loc { int id; bool & done; Loc(int i, bool & d) : id(i), done(d) { ++alive_loc; } ~Loc() { --alive_loc; if (!done) { ++unw[id]; } } };
static std::vector<Ctx> * slotv;
static int rounds;
struct Fn {
  int id;
  explicit Fn(int i) : id(i) { ++alive_fn; }
  Fn(Fn && o) : id(o.id) { ++alive_fn; }
  Fn(Fn const & o) : id(o.id) { ++alive_fn; }
  ~Fn() { --alive_fn; }
  Ctx operator()(Ctx && c) {
    Ctx y(std::move(c)); bool done = false; Loc l(id, done); int mine = id; volatile int key = id * 7 + 1;
    for (int r = 0; r < rounds; ++r) {
      if (!y) bad("the resumer was not delivered", id);
      ++runs[id];
      y = std::move(y).resume();
      if (mine != id || key != id * 7 + 1) bad("the locals of a context changed", mine, id);
    }
    ++runs[id]; ++fin[id]; done = true;
    return y;
  }
};
// chain: context i creates context i+1 and keeps it
static long chain_n, chain_deep;
static int chain_end;
struct Chain {
  int id;
  Ctx operator()(Ctx && c) {
    Ctx y(std::move(c)); bool done = false; Loc l(id, done); ++runs[id]; ++chain_deep;
    Ctx next;
    if (id + 1 < chain_n) {
#if API == 0
      next = Ctx(std::allocator_arg, Al{77}, Chain{id + 1}); next = std::move(next).resume();
#else
      next = bc::callcc(std::allocator_arg, Al{77}, Chain{id + 1});
#endif
      if (!next) bad("a suspended context is reported as finished", id);
    }
    y = std::move(y).resume();
    ++runs[id];
    if (next) { next = std::move(next).resume(); if (next) bad("a finished context is reported as suspended", id); }
    ++fin[id]; done = true; return y;
  }
};
static Ctx make(int id) {
#if API == 0
  return Ctx(std::allocator_arg, Al{77}, Fn(id));
#else
  return bc::callcc(std::allocator_arg, Al{77}, Fn(id));
#endif
}
static long idx(long i, long n, int order) { return order == 0 ? i : order == 1 ? n - 1 - i : (i * 7919L + 13) % n; }   // 7919 is a prime that divides none of the numbers
static void flat(long n, int order, int end, int forder) {
  std::vector<Ctx> v; v.reserve(n); rounds = 3;
  for (long i = 0; i < n; ++i) v.push_back(make((int)i));
  int first = API == 0 ? 0 : 1;
  for (long i = 0; i < n; ++i) if (runs[i] != first || !v[i]) { bad("creation ran a context", runs[i], first); return; }
  if (held != n) bad("stacks held", held, n);
  // two rounds in the given order, each context exactly once
  for (int r = 0; r < 2; ++r) for (long i = 0; i < n && !failed; ++i) { long k = idx(i, n, order); v[k] = std::move(v[k]).resume(); if (!v[k]) bad("a suspended context is reported as finished", k); if (runs[k] != first + r + 1) bad("another context ran, or it ran more than once", runs[k], first + r + 1); }
  long total = 0; for (int x : runs) total += x;
  if (total != n * (first + 2)) bad("resumptions", total, n * (first + 2));
  for (long i = 0; i < n && !failed; ++i) {
    long k = idx(i, n, forder); bool destroy = end == 1 || (end == 2 && k % 2);
    if (destroy) { v[k] = Ctx(); if (unw[k] != 1 || fin[k]) bad("unwound", unw[k], 1); }
    else { while (v[k] && runs[k] < 10) v[k] = std::move(v[k]).resume(); if (v[k]) { bad("a context did not finish", k); return; } v[k] = Ctx(); if (fin[k] != 1 || unw[k]) bad("finished", fin[k], 1); }
    if (held != n - 1 - i) bad("stacks held after ending a context", held, n - 1 - i);
  }
}
static void chain(long n, int end) {
  chain_n = n; chain_deep = 0;
#if API == 0
  Ctx c(std::allocator_arg, Al{77}, Chain{0}); c = std::move(c).resume();
#else
  Ctx c = bc::callcc(std::allocator_arg, Al{77}, Chain{0});
#endif
  if (chain_deep != n || held != n || !c) bad("contexts in the chain", chain_deep, n);
  if (end == 0) { c = std::move(c).resume(); if (c) bad("the chain did not finish"); for (long i = 0; i < n; ++i) if (fin[i] != 1 || unw[i] || runs[i] != 2) { bad("finished", fin[i], 1); break; } }
  else { c = Ctx(); for (long i = 0; i < n; ++i) if (fin[i] || unw[i] != 1 || runs[i] != 1) { bad("unwound", unw[i], 1); break; } }
}
// ring: main resumes the first, each passes control to the next one, the last to main
static std::vector<Ctx> ring_v; static long ring_n; static std::vector<long> ring_seen;
struct Ring {
  int id;
  Ctx operator()(Ctx && c) {
    bool done = false; Loc l(id, done); Ctx from(std::move(c));
    for (int r = 0; r < 3; ++r) {
      // whoever resumed this one is kept in that one's place
      if (r || API == 0) { ring_v[id == 0 ? ring_n : id - 1] = std::move(from); ++runs[id]; ring_seen.push_back(id); long nx = id + 1; from = std::move(ring_v[nx]).resume(); }
      else from = std::move(from).resume();
    }
    ring_v[id == 0 ? ring_n : id - 1] = std::move(from); ++runs[id]; done = true; ++fin[id];
    return std::move(ring_v[id + 1]);
  }
};
static void ring(long n, int end) {
  ring_n = n; ring_v.clear(); ring_v.resize(n + 1); ring_seen.clear();
  for (long i = 0; i < n; ++i) {
#if API == 0
    ring_v[i] = Ctx(std::allocator_arg, Al{77}, Ring{(int)i});
#else
    ring_v[i] = bc::callcc(std::allocator_arg, Al{77}, Ring{(int)i});
#endif
  }
  for (int r = 0; r < 2 && !failed; ++r) {
    // main is at place n: the last context resumes it
    Ctx me = std::move(ring_v[0]).resume(); ring_v[n - 1] = std::move(me);
    if ((long)ring_seen.size() != (r + 1) * n) bad("resumptions in the ring", (long)ring_seen.size(), (r + 1) * n);
    for (std::size_t i = 0; i < ring_seen.size(); ++i) if (ring_seen[i] != (long)i % n) { bad("order in the ring", ring_seen[i], (long)i % n); break; }
  }
  (void)end;
  for (long i = 0; i < n; ++i) { long k = end ? n - 1 - i : i; if (!ring_v[k]) bad("a context of the ring is missing", k); ring_v[k] = Ctx(); if (unw[k] != 1) bad("unwound", unw[k], 1); }
}
int main(int argc, char ** argv) {
  long top = argc > 1 ? atol(argv[1]) : 300; std::string only = argc > 2 ? argv[2] : ""; if (argc > 3) SS = atol(argv[3]);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  struct R { volatile long done; volatile int bad; char msg[300]; } * sh = (R *)mmap(0, sizeof(R), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  long n = 0; std::string viol, vname;
  for (long m : { 1L, 2L, 3L, 5L, 15L, 16L, 17L, 31L, 33L, 63L, 64L, 65L, 127L, 128L, 129L, 254L, 255L, 256L, 257L, 300L, 511L, 513L, 1025L, 4097L, 32769L, 65535L, 65536L, 65537L, 66000L }) {
    if (m > top || !viol.empty()) break;
    for (int p = 0; p < 3 + 9 * 3 + 2 && viol.empty(); ++p) {
      int kind = p < 27 ? 0 : p < 29 ? 1 : 2, end = p < 27 ? p % 3 : p < 29 ? p - 27 : p - 29, order = p / 3 % 3, fo = p / 9 % 3;
      if (p >= 31) continue;
      if (m > 5000 && kind == 0 && (order != fo)) continue;
      char nm[100]; snprintf(nm, sizeof nm, "%ld-%d", m, p);
      if (!only.empty() && only != nm) continue;
      fflush(stdout); sh->bad = 0;
      pid_t c = fork();
      if (!c) {
        alarm(100); slots = m + 2;
        arena = (char *)mmap(0, slots * SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        used.assign(slots, 0); for (unsigned i = 0; i < slots; ++i) freel.push_back((unsigned)slots - 1 - i);
        runs.assign(m, 0); unw.assign(m, 0); fin.assign(m, 0);
        if (kind == 0) flat(m, order, end, fo); else if (kind == 1) chain(m, end); else ring(m, end);
        if (!failed && held) bad("stacks held at the end", held, 0);
        if (!failed && (allocs != m || frees != m)) bad("allocations", allocs, m);
        if (!failed && (alive_fn || alive_loc)) bad("function objects or locals alive at the end", alive_fn + alive_loc, 0);
        if (failed) { snprintf(sh->msg, sizeof sh->msg, "%s", bad_); sh->bad = 1; }
        _exit(failed ? 1 : 0);
      }
      int st; waitpid(c, &st, 0); ++n;
      if (sh->bad || st) { char b[400]; if (sh->bad) snprintf(b, sizeof b, "%s", sh->msg); else snprintf(b, sizeof b, "the process ended with wait status %#x", st); vname = nm; viol = std::string(b) + "; " + std::to_string(m) + " contexts, " + (kind == 0 ? "flat" : kind == 1 ? "chain" : "ring") + ", resume order " + std::to_string(order) + ", end order " + std::to_string(fo) + ", way to end " + std::to_string(end); }
    }
  }
  printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"samples\":[\"1 to %ld contexts alive at once: flat, chain, ring\"]", n, n, top);
  if (!viol.empty()) printf(",\"violation\":{\"message\":\"%s\",\"replay\":[%ld,\"%s\",%zu]}", viol.c_str(), top, vname.c_str(), SS);
  printf("}\n");
  return viol.empty() ? 0 : 1;
}
