// Enumerates every place an exception can leave an entry function, and checks that each one ends in
// std::terminate() while the context that throws is running: it never reaches another context.
#include <boost/context/fixedsize_stack.hpp>
#if API == 0
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#else
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#endif
#include <exception>
#include <stdexcept>
#include <new>
#include <system_error>
#include <functional>
#include <typeinfo>
#include <ios>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <signal.h>
namespace bc = boost::context;
#define NI __attribute__((noinline))
struct Obj { int v; virtual ~Obj() {} explicit Obj(int x) : v(x) {} };
struct Rt : std::runtime_error { Rt() : std::runtime_error("rt") {} };
struct VBase : virtual Obj { VBase() : Obj(11) {} };
struct Big { char c[4096]; int v; };
enum En { EN = 3 };
static Obj the_obj(12);
enum { XFULL = 4, XK = 21, ORG = 9, RES = 3, K = 3, HND = 3 };   // the first XFULL kinds with every way to resume
static const char *const xn[] = {"int", "class", "std::exception", "rethrown exception_ptr", "std::bad_alloc", "std::bad_array_new_length", "std::logic_error", "std::system_error", "std::exception itself", "string literal", "pointer to class", "nullptr", "enumerator", "double",
  "class with virtual base", "large object", "std::bad_function_call", "std::bad_cast", "std::bad_exception", "nested exception", "std::ios_base::failure"};
template <class T> static bool is(std::exception_ptr p) { try { std::rethrow_exception(p); } catch (T &) { return true; } catch (...) { return false; } }
static const char *const on[] = {"entry function", "nested frame", "nested frame that rethrows", "on-top function on a fresh context", "on-top function on a suspended context", "destructor-free unwinding of an inner resume_with", "while another context is being held", "entry function with a function object throwing from a temporary's scope", "inner context created by the throwing context"};
// The throwing context must not own its resumer: unwinding it (before std::terminate) would destroy the resumer.
static Ctx &keep(Ctx &&c) { return *new Ctx(std::move(c)); }
struct Sh { volatile int threw, terminated, escaped, resumed_after; char what[160]; };
static Sh *sh;
static int xk, org, rs, k, hnd;
static void on_terminate() {
  sh->terminated++;
  std::exception_ptr p = std::current_exception();
  (void)p;
  _exit(77);
}
NI static void thrower() {
  sh->threw = 1;
  switch (xk) {
    case 0: throw 42;
    case 1: throw Obj(7);
    case 2: throw Rt();
    case 4: throw std::bad_alloc();
    case 5: throw std::bad_array_new_length();
    case 6: throw std::logic_error("le");
    case 7: throw std::system_error(std::error_code(12, std::system_category()), "se");
    case 8: throw std::exception();
    case 9: throw "literal";
    case 10: throw &the_obj;
    case 11: throw nullptr;
    case 12: throw EN;
    case 13: throw 1.5;
    case 14: throw VBase();
    case 15: { Big b; b.v = 15; throw b; }
    case 16: throw std::bad_function_call();
    case 17: throw std::bad_cast();
    case 18: throw std::bad_exception();
    case 19: try { throw 5; } catch (...) { std::throw_with_nested(Rt()); }
    case 20: throw std::ios_base::failure("io");
    default: { std::exception_ptr p; try { throw Obj(9); } catch (...) { p = std::current_exception(); } std::rethrow_exception(p); }
  }
}
// whether the exception being handled is, type and value, what thrower() threw
static bool genuine() {
  std::exception_ptr p = std::current_exception();
  if (!p) return false;
  try { std::rethrow_exception(p); }
  catch (int i) { return xk == 0 && i == 42; }
  catch (VBase &v) { return xk == 14 && v.v == 11; }
  catch (Obj &o) { return (xk == 1 && o.v == 7) || (xk == 3 && o.v == 9); }
  catch (std::bad_array_new_length &) { return xk == 5; }
  catch (std::bad_alloc &) { return xk == 4; }
  catch (std::ios_base::failure &) { return xk == 20; }
  catch (std::system_error &e) { return xk == 7 && e.code().value() == 12; }
  catch (Rt &r) { return xk == 19 ? dynamic_cast<std::nested_exception *>(&r) != 0 : xk == 2; }
  catch (std::logic_error &e) { return xk == 6 && !strcmp(e.what(), "le"); }
  catch (std::bad_function_call &) { return xk == 16; }
  catch (std::bad_cast &) { return xk == 17; }
  catch (std::bad_exception &) { return xk == 18; }
  catch (std::exception &e) { return xk == 8 && typeid(e) == typeid(std::exception); }
  catch (char const *c) { return c ? xk == 9 && !strcmp(c, "literal") : xk == 11; }
  catch (Obj *o) { return xk == 10 ? o == &the_obj : xk == 11 && !o; }
  catch (En e) { return xk == 12 && e == EN; }
  catch (double d) { return xk == 13 && d == 1.5; }
  catch (Big &b) { return xk == 15 && b.v == 15; }
  catch (...) { return xk == 11; }
}
NI static void nested(int d) { struct G { ~G() {} } g; (void)g; if (d) { try { nested(d - 1); } catch (char) { sh->escaped = 2; } } else thrower(); }
NI static void nested_re(int d) { try { if (d) nested_re(d - 1); else thrower(); } catch (...) { throw; } }
static Ctx &kept() { static Ctx c; return c; }
static Ctx ontop(Ctx &&c) { keep(std::move(c)); thrower(); return std::move(c); }
template <class F> static Ctx create(F &&f) {
#if API == 0
  return Ctx(std::allocator_arg, bc::fixedsize_stack(65536), std::forward<F>(f)).resume();
#else
  return bc::callcc(std::allocator_arg, bc::fixedsize_stack(65536), std::forward<F>(f));
#endif
}
struct Body {
  int n; std::string heavy;
  Body() : n(0), heavy(100, 'x') {}
  Ctx operator()(Ctx &&c) {
    Ctx &d = keep(std::move(c));
    for (int i = 0; i < k; i++) d = std::move(d).resume();
    switch (org) {
      case 0: thrower(); break;
      case 1: nested(3); break;
      case 2: nested_re(3); break;
      case 5: {
        Ctx in = create([](Ctx &&x) { Ctx &y = keep(std::move(x)); try { y = std::move(y).resume(); } catch (...) { thrower(); } return std::move(y); });
        in = std::move(in).resume_with([](Ctx &&x) -> Ctx { keep(std::move(x)); throw 1; return std::move(x); });
        sh->escaped = 3;
        break;
      }
      case 6: { Ctx held = create([](Ctx &&x) { Ctx y(std::move(x)); y = std::move(y).resume(); return y; }); thrower(); break; }
      case 7: { std::string a(50, 'a'); struct T { ~T() noexcept(false) { thrower(); } } t; (void)t; break; }
      case 8: {
        try { Ctx in = create([](Ctx &&x) -> Ctx { keep(std::move(x)); thrower(); return std::move(x); }); } catch (...) { sh->escaped = 4; }
        break;
      }
    }
    for (;;) d = std::move(d).resume();
  }
};
NI static void drive() {
  try {
    Ctx c;
    if (org == 3) {
#if API == 0
      c = Ctx(std::allocator_arg, bc::fixedsize_stack(65536), Body()).resume_with(ontop);
#else
      return;
#endif
    } else {
      c = create(Body());
      for (int i = 0; i < k && c; i++) {
        if (org == 4 && i == k - 1) c = std::move(c).resume_with(ontop);
        else c = std::move(c).resume();
      }
    }
    sh->resumed_after = 1;
  } catch (...) { sh->escaped = 1; }
}
NI static void scenario() {
  std::set_terminate(on_terminate);
  if (hnd == 1) { try { drive(); } catch (...) { sh->escaped = 1; } }
  else if (hnd == 2) { try { throw Obj(1); } catch (Obj &) { drive(); } }   // resumed from within a handler of an unrelated exception
  else drive();
}
// exceptions that are caught in the context they belong to arrive there unchanged
NI static bool contained(int where) {
  struct T { ~T() { dtors()++; } static int &dtors() { static int n; return n; } };
  int st = 0, before = T::dtors();
  bool ok = true;
#define WANT(c) do { if (!(c)) ok = false; } while (0)
  switch (where) {
    case 0: {  // thrown and caught in the entry function, with switches before, inside the handler's surroundings, and after
      Ctx c = create([&st](Ctx &&x) { Ctx y(std::move(x)); y = std::move(y).resume(); try { T t; (void)t; thrower(); } catch (...) { st = genuine() ? 1 : -1; } y = std::move(y).resume(); try { thrower(); } catch (...) { st = st == 1 && genuine() ? 2 : -1; } return y; });
      WANT(c && st == 0); c = std::move(c).resume(); WANT(c && st == 1); c = std::move(c).resume(); WANT(!c && st == 2); WANT(T::dtors() == before + 1);
      break;
    }
    case 1: {  // thrown by a function run on top: out of the pending resume of the target
      Ctx c = create([&st](Ctx &&x) { Ctx y(std::move(x)); try { T t; (void)t; y = std::move(y).resume(); st = -2; } catch (...) { st = genuine() ? 1 : -1; y = std::move(kept()); } return y; });
      WANT(c && st == 0); c = std::move(c).resume_with([](Ctx &&x) -> Ctx { kept() = std::move(x); thrower(); return Ctx(); }); WANT(!c && st == 1); WANT(T::dtors() == before + 1);
      break;
    }
    case 2: {  // in a destructor while the context is destroyed
      struct D { int &s; ~D() { try { T t; (void)t; thrower(); } catch (...) { s = genuine() ? 1 : -1; } } };
      Ctx c = create([&st](Ctx &&x) { Ctx y(std::move(x)); D d{st}; y = std::move(y).resume(); st = -2; return y; });
      WANT(c && st == 0); c = Ctx(); WANT(st == 1); WANT(T::dtors() == before + 1);
      break;
    }
    case 3: {  // the creator throws out of a frame that owns a suspended context
      struct D { int &s; ~D() { s++; } };
      try { Ctx c = create([&st](Ctx &&x) { Ctx y(std::move(x)); D d{st}; y = std::move(y).resume(); st = -2; return y; }); WANT(c); thrower(); } catch (...) { WANT(genuine()); st += 10; }
      WANT(st == 11);
      break;
    }
    case 4: {  // a function on top of the context that waits inside a handler
      Ctx c = create([&st](Ctx &&x) { Ctx y(std::move(x)); try { throw Obj(3); } catch (Obj &o) { try { y = std::move(y).resume(); st = -2; } catch (...) { st = genuine() ? 1 : -1; y = std::move(kept()); } if (o.v != 3) st = -3; } return y; });
      WANT(c && st == 0); c = std::move(c).resume_with([](Ctx &&x) -> Ctx { kept() = std::move(x); thrower(); return Ctx(); }); WANT(!c && st == 1);
      break;
    }
    case 5: {  // caught by a function on top, which then returns normally
      Ctx c = create([&st](Ctx &&x) { Ctx y(std::move(x)); y = std::move(y).resume(); if (st == 1) st = 2; return y; });
      c = std::move(c).resume_with([&st](Ctx &&x) -> Ctx { try { thrower(); } catch (...) { st = genuine() ? 1 : -1; } return std::move(x); }); WANT(!c && st == 2);
      break;
    }
#if API == 0
    case 6: {  // thrown by a function on top of a context that never ran: its entry function does not run, the exception ends the process (checked above); here it is caught by the function itself
      Ctx c(std::allocator_arg, bc::fixedsize_stack(65536), [&st](Ctx &&x) { if (st == 1) st = 2; return std::move(x); });
      c = std::move(c).resume_with([&st](Ctx &&x) -> Ctx { try { thrower(); } catch (...) { st = genuine() ? 1 : -1; } return std::move(x); }); WANT(!c && st == 2);
      break;
    }
#endif
  }
  return ok && !std::uncaught_exception() && !std::current_exception();
}
static const char *const wn[] = {"caught in the entry function", "thrown on top of a suspended context", "caught in a destructor during unwinding", "thrown by the owner of a suspended context", "thrown on top of a context inside a handler", "caught by a function on top", "caught by a function on top of a fresh context"};
static void run_case() {
  if (rs == 0) scenario();
  else if (rs == 1) {  // resumed from a context that catches everything
    Ctx o = create([](Ctx &&x) { Ctx y(std::move(x)); try { scenario(); } catch (...) { sh->escaped = 1; } return y; });
  } else {  // from a context that is being unwound
    struct G { ~G() { try { scenario(); } catch (...) { sh->escaped = 1; } } };
    Ctx o = create([](Ctx &&x) { Ctx y(std::move(x)); G g; (void)g; y = std::move(y).resume(); return y; });
    o = Ctx();
  }
}
int main(int argc, char **argv) {
  sh = (Sh *)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  long n = 0, nt = 0; std::string bad, samples;
  int only[5] = {-1, -1, -1, -1, -1};
  for (int i = 1; i < argc && i < 6; i++) only[i - 1] = atoi(argv[i]);
  int bc_[5] = {0, 0, 0, 0, 0};
  fflush(stdout);
  for (org = 0; org < ORG && bad.empty(); org++) for (xk = 0; xk < XK && bad.empty(); xk++) for (rs = 0; rs < RES && bad.empty(); rs++) for (k = 0; k < K && bad.empty(); k++) for (hnd = 0; hnd < HND && bad.empty(); hnd++) {
    if (org == 3 && (API == 1 || k)) continue;
    if (org == 4 && !k) continue;
    if (xk >= XFULL && (rs || hnd || k > 1)) continue;
    int cur[5] = {org, xk, rs, k, hnd};
    bool skip = false;
    for (int i = 0; i < 5; i++) if (only[i] >= 0 && only[i] != cur[i]) skip = true;
    if (skip) continue;
    memset(sh, 0, sizeof *sh);
    pid_t p = fork();
    if (!p) { alarm(20); run_case(); _exit(1); }
    int st; waitpid(p, &st, 0);
    n++;
    if (sh->threw) nt++;
    char b[400];
    snprintf(b, sizeof b, "%s thrown by %s; resumed by %s after %d switches%s", xn[xk], on[org], rs == 0 ? "main" : rs == 1 ? "a context that catches everything" : "a context being unwound", k, hnd == 1 ? " inside try" : hnd == 2 ? " inside a handler" : "");
    if (samples.size() < 600) samples += std::string(samples.empty() ? "\"" : ",\"") + b + "\"";
    const char *w = 0;
    if (!sh->threw) w = "the scenario did not reach its throw";
    else if (sh->escaped) w = "the exception was caught outside the context that threw it";
    else if (sh->resumed_after) w = "control came back to another context after the exception left its entry function";
    else if (!sh->terminated) w = "std::terminate was not called";
    else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 77)) w = "the process did not end in the terminate handler";
    if (w) { bad = std::string(b) + ": " + w; memcpy(bc_, cur, sizeof cur); }
  }
  for (xk = 0; xk < XK && bad.empty() && only[0] < 0; xk++) for (int w = 0; w < 7 && bad.empty(); w++) {
    if (w == 6 && API) continue;
    n++; nt++;
    memset(sh, 0, sizeof *sh);
    pid_t p = fork();
    if (!p) { alarm(20); bool ok = false; try { ok = contained(w); } catch (...) {} _exit(ok ? 0 : 1); }
    int st; waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { bad = std::string(xn[xk]) + " " + wn[w] + ": did not arrive unchanged, or more than that happened", memset(bc_, 0xff, sizeof bc_); }
  }
  printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"samples\":[%s]", n, nt, samples.c_str());
  if (!bad.empty()) printf(",\"violation\":{\"message\":\"%s\",\"replay\":[%d,%d,%d,%d,%d]}", bad.c_str(), bc_[0], bc_[1], bc_[2], bc_[3], bc_[4]);
  printf("}\n");
  return bad.empty() ? 0 : 1;
}
