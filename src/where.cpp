// The place of a stack in the address space: every power of two that user memory can have (stack below it, above it, across
// it) and addresses with alternating bits x creation forms x ways to end x with or without a function on top of the first
// resumption.  What the context receives, where it runs and what is given back must not depend on the place.
#include <boost/context/preallocated.hpp>
#include <boost/context/stack_context.hpp>
#if API == 0
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#else
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#endif
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif
namespace bc = boost::context;
static char bad_[300]; static bool failed;
static void bad(char const * w, long a = 0, long b = 0) { if (!failed) { failed = true; snprintf(bad_, sizeof bad_, "%s (%ld, expected %ld)", w, a, b); } }
static std::size_t const SS = 65536;
static char * lo; static int allocs, frees, fns, locs, ran, top, caught;
static bool foreign;     // the implementation runs contexts on memory of its own
struct Al {
  uint64_t key;
  explicit Al(uint64_t k) : key(k) {}
  bc::stack_context allocate() { ++allocs; bc::stack_context s; s.size = SS; s.sp = lo + SS; return s; }
  void deallocate(bc::stack_context & s) noexcept { ++frees; if (s.sp != lo + SS || s.size != SS) bad("another stack was given back", (long)((char *)s.sp - lo), (long)SS); if (key != 0xfedcba9876543210ull) bad("the allocator changed"); }
};
struct Loc { Loc() { ++locs; } ~Loc() { --locs; } };
struct Fn {
  uint64_t a, b; void * self;
  Fn(uint64_t x, uint64_t y) : a(x), b(y), self(0) { ++fns; }
  Fn(Fn && o) : a(o.a), b(o.b), self(0) { ++fns; }
  Fn(Fn const & o) : a(o.a), b(o.b), self(0) { ++fns; }
  ~Fn() { --fns; }
  Ctx operator()(Ctx && c) {
    Loc l; char here; volatile uint64_t k = a ^ b; Ctx y(std::move(c)); ++ran; self = this;
    if (a != 0x8123456789abcdefull || b != 0x7edcba9876543210ull) bad("the function object changed");
    if (!foreign && !(&here >= lo && &here < lo + SS)) bad("the context runs on other memory", (long)(&here - lo), 0);
    if ((char *)this < lo || (char *)(this + 1) > lo + SS) bad("the function object is elsewhere", (long)((char *)this - lo), 0);
    if (!y) bad("the resumer was not delivered");
    try { throw (int)(k & 0xff); } catch (int v) { if (v != (int)((a ^ b) & 0xff)) bad("exception", v); ++caught; }
    y = std::move(y).resume(); ++ran;
    if (k != (a ^ b) || self != this) bad("the locals of the context changed");
    y = std::move(y).resume(); ++ran;
    return y;
  }
};
static void scenario(int form, int end, int ontop) {
  auto f = [](Ctx && c) { ++top; char h; if (!foreign && !(&h >= lo && &h < lo + SS)) bad("the function on top runs on other memory"); return std::move(c); };
  Fn fn(0x8123456789abcdefull, 0x7edcba9876543210ull); Al al(0xfedcba9876543210ull);
#if API == 0
  Ctx c;
  if (form == 0) c = Ctx(std::allocator_arg, al, fn);
  else { bc::stack_context s = al.allocate(); char * sp = (char *)s.sp - 256; c = Ctx(std::allocator_arg, bc::preallocated(sp, s.size - 256, s), al, fn); }
  if (ran) bad("creation ran the context"); if (end == 2) { c = Ctx(); if (ran) bad("destruction ran the context"); return; }
  c = ontop ? std::move(c).resume_with(f) : std::move(c).resume();
  if (top != ontop) bad("functions on top", top, ontop);
#else
  Ctx c;
  if (form == 0) c = bc::callcc(std::allocator_arg, al, fn);
  else { bc::stack_context s = al.allocate(); char * sp = (char *)s.sp - 256; c = bc::callcc(std::allocator_arg, bc::preallocated(sp, s.size - 256, s), al, fn); }
  top = ontop;
#endif
  if (ran != 1 || caught != 1) bad("entered", ran, 1);
  if (end != 3) { c = ontop ? std::move(c).resume_with(f) : std::move(c).resume(); if (ran != 2 || top != 2 * ontop) bad("resumed", ran, 2); }
  if (!c) bad("a suspended context is reported as finished");
  if (end == 0) { c = std::move(c).resume(); if (ran != 3 || c) bad("finished", ran, 3); c = Ctx(); }
  else { int r = ran; c = Ctx(); if (ran != r) bad("a destroyed context went on", ran, r); }
  if (locs) bad("locals alive", locs, 0);
  if (fns != 1) bad("function objects alive", fns, 1);
}
int main(int argc, char ** argv) {
  std::string only = argc > 1 ? argv[1] : "";
#if defined(WHERE_FOREIGN)
  foreign = true;
#endif
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  struct R { volatile int bad, skip; char msg[300]; } * sh = (R *)mmap(0, sizeof(R), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  long n = 0, ev = 0; std::string viol, vname;
  struct P { uint64_t a; char name[40]; } pl[200]; int np = 0;
  for (int k = 17; k <= 47; ++k) for (int w = 0; w < 3; ++w) { if (k == 47 && w) continue; P & p = pl[np++]; p.a = (1ull << k) - (w == 0 ? SS + (k == 47 ? 4096 : 0) : w == 1 ? 0 : SS / 2); snprintf(p.name, sizeof p.name, "2^%d%s", k, w == 0 ? "-below" : w == 1 ? "-above" : "-across"); }
  for (uint64_t a : { 0x555500000000ull, 0x2aaa55550000ull, 0x5555aaaa0000ull, 0x7fff00008000ull & ~0xffffull, 0x1ffff0000ull, 0x17fff0000ull, 0x180000000ull, 0x7f7f7f7f0000ull, 0x00ff00ff0000ull, 0x123456780000ull, 0x7edcba980000ull, 0x0000fff00000ull, 0x4000ffff0000ull }) { P & p = pl[np++]; p.a = a; snprintf(p.name, sizeof p.name, "%llx", (unsigned long long)a); }
  for (int i = 0; i < np && viol.empty(); ++i) for (int form = 0; form < 2 && viol.empty(); ++form) for (int end = 0; end < 4 && viol.empty(); ++end) for (int on = 0; on < 2 && viol.empty(); ++on) {
    if (end == 2 && API == 1) continue;
    char nm[80]; snprintf(nm, sizeof nm, "%s,%d,%d,%d", pl[i].name, form, end, on);
    if (!only.empty() && only != nm) continue;
    fflush(stdout); sh->bad = sh->skip = 0; ++ev;
    pid_t c = fork();
    if (!c) {
      alarm(60);
      void * v = mmap((void *)pl[i].a, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
      if (v != (void *)pl[i].a) { sh->skip = 1; _exit(0); }
      lo = (char *)v; scenario(form, end, on);
      if (!failed && (allocs != 1 || frees != 1)) bad("stacks given back", frees, allocs);
      if (failed) { snprintf(sh->msg, sizeof sh->msg, "%s", bad_); sh->bad = 1; }
      _exit(failed);
    }
    int st; waitpid(c, &st, 0); if (!sh->skip) ++n;
    if (sh->bad || st) { char b[400]; if (sh->bad) snprintf(b, sizeof b, "%s", sh->msg); else snprintf(b, sizeof b, "the process ended with wait status %#x", st); vname = nm; viol = std::string(b) + "; stack at " + pl[i].name + ", creation form " + std::to_string(form) + ", ending " + std::to_string(end) + ", function on top " + std::to_string(on); }
  }
  printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"samples\":[\"a stack across 2^32, given by an allocator, destroyed after a resumption with a function on top\"]", ev, n);
  if (!viol.empty()) printf(",\"violation\":{\"message\":\"%s\",\"replay\":[\"%s\"]}", viol.c_str(), vname.c_str());
  printf("}\n");
  return viol.empty() ? 0 : 1;
}
