// All schedules (up to a preemption bound) of small multi-threaded programs, on the real code under rt.cpp.
//   conc pool -T threads -L ops    | conc ctx -T threads -L ops | conc traits -T threads -L ops
// API: 0 fiber, 1 callcc
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/stack_traits.hpp>
#if API == 0
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#else
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#endif
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sys/resource.h>
#include <unistd.h>
#include "rt.h"
namespace bc = boost::context;
static int T = 2, L = 2; static std::string MODE;
// scripts are tables built before any exploration; the monitored threads only read them
static std::vector<std::string> scripts, combos;   // combos: one character per thread, index into scripts (+1)
static char const * script(int s, int t) { return scripts[(size_t)(unsigned char)combos[(size_t)s][(size_t)t] - 1].c_str(); }
static char const * cur[6];
#define CHECK(c, m) do { if (!(c)) rt::fail("%s", m); } while (0)
static rt::Mutex M;   // the user's serialisation
struct Guard { Guard() { M.lock(); } ~Guard() { M.unlock(); } };
// ---------------------------------------------------------------- pooled allocator
typedef bc::pooled_fixedsize_stack PA;
template <class A, class F> static Ctx create(A a, F && f) {
#if API == 0
    return Ctx(std::allocator_arg, std::move(a), std::forward<F>(f)).resume();
#else
    return bc::callcc(std::allocator_arg, std::move(a), std::forward<F>(f));
#endif
}
template <class X> struct Slot { alignas(X) unsigned char s[sizeof(X)]; bool on = false; X & operator*() { return *reinterpret_cast<X *>(s); } template <class... A> void make(A &&... a) { new (s) X(std::forward<A>(a)...); on = true; } void drop() { if (on) { on = false; (**this).~X(); } } };
struct PoolThread { Slot<PA> a, b; Slot<Ctx> f; bc::stack_context sc; bool st = false; };
static PoolThread pt[6]; static Slot<PA> * master;
static void pool_end(PoolThread & p) { if (p.st) { Guard g; (*p.a).deallocate(p.sc); p.st = false; } }
static void pool_thread(void * v) {
    long t = (long)v; PoolThread & p = pt[t]; unsigned char pat = (unsigned char)(0x21 + t);
    for (char const * s = cur[t]; *s; ++s) switch (*s) {
    case 'c': p.b.make(*p.a); break;                                  // copy
    case 'm': p.b.make(std::move(*p.a)); p.a.drop(); break;           // move (a copy or a transfer of the pool)
    case 'x': p.b.drop(); break;
    case 'y': pool_end(p); p.a.drop(); break;
    case '=': *p.a = *p.b; break;
    case 'A': { Guard g; p.sc = (*p.a).allocate(); p.st = true; memset((char *)p.sc.sp - 64, pat, 64); } break;
    case 'F': { for (int i = 1; i <= 64; ++i) CHECK(((unsigned char *)p.sc.sp)[-i] == pat, "the contents of a live stack changed"); Guard g; (*p.a).deallocate(p.sc); p.st = false; } break;
    case 'k': { Guard g; p.f.make(create(*p.a, [](Ctx && c) { c = std::move(c).resume(); return std::move(c); })); } break;
    case 'K': { Guard g; p.f.drop(); } break;
    case 'r': { Guard g; *p.f = std::move(*p.f).resume(); CHECK(!*p.f, "a finished context returned a live object"); p.f.drop(); } break;
    }
    { if (p.f.on) { Guard g; p.f.drop(); } }
    pool_end(p); p.b.drop(); p.a.drop();
}
static void pool_run(int s) {
    for (int t = 0; t < T; ++t) cur[t] = script(s, t);
    master->make(std::size_t(65536), std::size_t(1), std::size_t(0));
    int id[6]; for (int t = 0; t < T; ++t) pt[t].a.make(**master);
    for (int t = 0; t < T; ++t) id[t] = rt::spawn(pool_thread, (void *)(long)t);
    master->drop();                                                    // concurrently with the threads
    for (int t = 0; t < T; ++t) rt::join(id[t]);
}
static bool pool_ok(std::string const & s) {
    bool a = true, b = false, st = false, f = false;
    for (char c : s) switch (c) {
    case 'c': if (!a || b) return false; b = true; break;
    case 'm': if (!a || b || st) return false; b = true; a = false; break;
    case 'x': if (!b) return false; b = false; break;
    case 'y': if (!a) return false; a = st = false; break;
    case '=': if (!a || !b) return false; break;
    case 'A': if (!a || st) return false; st = true; break;
    case 'F': if (!a || !st) return false; st = false; break;
    case 'k': if (!a || f) return false; f = true; break;
    case 'K': case 'r': if (!f) return false; f = false; break;
    }
    return true;
}
// ---------------------------------------------------------------- contexts
struct Shot { int thread, step, magic; };
struct Cell { Shot last; int lives, funcs, steps; };
static Cell cell[8]; static int ncell; static int box_id; static Slot<Ctx> * box;
struct Probe { Cell * c; explicit Probe(Cell * c_) : c(c_) { ++c->lives; } Probe(Probe const &) = delete; ~Probe() { --c->lives; } };
struct Ex { Ctx c; };
struct Body {
    Cell * c;
    Ctx operator()(Ctx && from) {
        Probe p(c); int magic = 77; double d = 0.5;
        for (int i = 0; i < 3; ++i) {
            c->last.thread = rt::self(); c->last.step = ++c->steps; c->last.magic = magic + (int)(d * 2);
            try { from = std::move(from).resume(); } catch (Ex & e) { from = std::move(e.c); ++c->funcs; }
            CHECK((bool)from, "a resumed context received an object that is not a context"); ++magic; d += 0.5;
        }
        c->last.thread = rt::self(); c->last.step = ++c->steps; c->last.magic = 80;
        return std::move(from);
    }
};
struct CtxThread { Slot<Ctx> f; int id = -1; };
static CtxThread ct[6];
static void after(CtxThread & t, int step0) {
    Cell & c = cell[t.id];
    CHECK(c.last.thread == rt::self(), "a context continued on another thread than the one that resumed it");
    CHECK(c.steps == step0 + 1, "resuming a context did not continue it exactly once");
    CHECK(c.last.magic == (c.steps == 4 ? 80 : 76 + 2 * c.steps), "the locals of a context changed");
    CHECK((bool)*t.f == (c.steps < 4), "the object returned by resume() does not tell whether the context finished");
    if (c.steps == 4) { CHECK(c.lives == 0, "the locals of a finished context are alive"); t.f.drop(); t.id = -1; }
}
static void ctx_make(CtxThread & t, bool prot) {
    { Guard g; t.id = ncell++; }
    Body b{&cell[t.id]};
    if (prot) t.f.make(create(bc::protected_fixedsize_stack(65536), b)); else t.f.make(create(bc::fixedsize_stack(65536), b));
    after(t, 0);
}
static void ctx_destroy(CtxThread & t) { Cell & c = cell[t.id]; int s0 = c.steps; t.f.drop(); CHECK(c.lives == 0, "destroying a context did not unwind it before returning"); CHECK(c.steps == s0, "code of a destroyed context ran"); t.id = -1; }
static void ctx_thread(void * v) {
    long n = (long)v; CtxThread & t = ct[n];
    for (char const * s = cur[n]; *s; ++s) {
        if (*s == 'n' || *s == 'p') { if (!t.f.on) ctx_make(t, *s == 'p'); continue; }
        if (*s == 't') { Guard g; if (!t.f.on && box->on) { t.f.make(std::move(**box)); CHECK(!**box, "a moved-from object is not empty"); box->drop(); t.id = box_id; rt::note(1); } else rt::note(2); continue; }
        if (!t.f.on) continue;
        switch (*s) {
        case 'r': { int k = cell[t.id].steps; *t.f = std::move(*t.f).resume(); after(t, k); } break;
        case 'w': { int k = cell[t.id].steps, ran = 0, self = rt::self(); *t.f = std::move(*t.f).resume_with([&ran, self](Ctx && c) { ++ran; CHECK(rt::self() == self, "a function given to resume_with() ran on another thread"); return std::move(c); }); CHECK(ran == 1, "a function given to resume_with() did not run once"); after(t, k); } break;
        case 'e': { int k = cell[t.id].steps, fn = cell[t.id].funcs; *t.f = std::move(*t.f).resume_with([](Ctx && c) -> Ctx { throw Ex{std::move(c)}; }); CHECK(t.id < 0 || cell[t.id].funcs == fn + 1, "an exception of a function given to resume_with() did not arrive"); after(t, k); } break;
        case 'd': ctx_destroy(t); break;
        case 'g': { Guard g; if (!box->on) { box->make(std::move(*t.f)); box_id = t.id; t.f.drop(); t.id = -1; } } break;
        }
    }
    if (t.f.on) ctx_destroy(t);
}
static bool PRE = false;
static void ctx_run(int s) {
    for (int t = 0; t < T; ++t) cur[t] = script(s, t);
    ncell = 0; int id[6];
    if (PRE) { CtxThread t; ctx_make(t, false); box->make(std::move(*t.f)); t.f.drop(); box_id = t.id; }      // the main thread leaves one in the box
    for (int t = 0; t < T; ++t) id[t] = rt::spawn(ctx_thread, (void *)(long)t);
    for (int t = 0; t < T; ++t) rt::join(id[t]);
    if (box->on) { CtxThread t; t.f.make(std::move(**box)); t.id = box_id; box->drop(); int k = cell[t.id].steps; *t.f = std::move(*t.f).resume(); after(t, k); if (t.f.on) ctx_destroy(t); }
    for (int i = 0; i < ncell; ++i) CHECK(cell[i].lives == 0, "a local of a context was never destroyed");
}
static bool ctx_ok(std::string const & s) {   // drop scripts whose ops would all be skipped
    bool maybe = false;
    for (char c : s) { if (c == 'n' || c == 'p') { if (maybe) return false; maybe = true; } else if (c == 't') { if (maybe) return false; maybe = true; } else { if (!maybe) return false; if (c == 'd' || c == 'g') maybe = false; } }
    return true;
}
// ---------------------------------------------------------------- stack_traits
static rlim_t LIM = 8u << 20; static long nlim, npage; static bool CHANGE = false;
extern "C" long __real_sysconf(int);
extern "C" long __wrap_sysconf(int n) { if (n == _SC_PAGESIZE && MODE == "traits") { ++npage; return 16384; } return __real_sysconf(n); }
extern "C" int __wrap_getrlimit(int, struct rlimit * r) { r->rlim_max = LIM; r->rlim_cur = 12345 * 4096; return 0; }
extern "C" int __wrap_getrlimit64(int k, struct rlimit * r) { return __wrap_getrlimit(k, r); }
static void traits_thread(void * v) {
    for (char const * s = cur[(long)v]; *s; ++s) switch (*s) {
    case 'u': CHECK(bc::stack_traits::is_unbounded() == (LIM == RLIM_INFINITY), "is_unbounded() is wrong"); break;
    case 'p': CHECK(bc::stack_traits::page_size() == 16384, "page_size() is wrong"); break;
    case 'd': CHECK(bc::stack_traits::default_size() == 131072, "default_size() is wrong"); break;
    case 'm': CHECK(bc::stack_traits::minimum_size() <= 131072 && bc::stack_traits::minimum_size() >= 2048, "minimum_size() is wrong"); break;
    case 'M': if (LIM != RLIM_INFINITY) CHECK(bc::stack_traits::maximum_size() == LIM, "maximum_size() is wrong"); break;
    case 'a': { bc::protected_fixedsize_stack al(20000); bc::stack_context c = al.allocate(); CHECK(c.size >= 20000 + 16384, "a protected stack is too small"); al.deallocate(c); } break;
    case 'A': { bc::fixedsize_stack al; bc::stack_context c = al.allocate(); CHECK(c.size >= 131072, "a default stack is too small"); al.deallocate(c); } break;
    }
}
static void traits_run(int s) {
    int k = (int)combos.size(); LIM = s < k ? 8u << 20 : RLIM_INFINITY; s %= k;
    for (int t = 0; t < T; ++t) cur[t] = script(s, t);
    int id[6]; for (int t = 0; t < T; ++t) id[t] = rt::spawn(traits_thread, (void *)(long)t);
    for (int t = 0; t < T; ++t) rt::join(id[t]);
}
// ----------------------------------------------------------------
static void gen(std::string const & al, std::string & s, int len, bool (*ok)(std::string const &)) {
    if (!s.empty() && ok && !ok(s)) return;
    if ((int)s.size() == len) { scripts.push_back(s); return; }
    for (char c : al) { s += c; gen(al, s, len, ok); s.resize(s.size() - 1); }
}
static void comb(std::string & s, int from) { if ((int)s.size() == T) { combos.push_back(s); return; } for (int i = from; i < (int)scripts.size(); ++i) { s += (char)(i + 1); comb(s, i); s.resize(s.size() - 1); } }
static void describe(int s, char * b, std::size_t n) { std::string r = MODE; for (int t = 0; t < T; ++t) r += std::string(" ") + script(s % (int)combos.size(), t); snprintf(b, n, "%s", r.c_str()); }
int main(int argc, char ** argv) {
    MODE = argc > 1 ? argv[1] : "pool"; std::string al;
    for (int i = 2; i + 1 < argc; i += 2) { std::string a = argv[i]; if (a == "-T") T = atoi(argv[i + 1]); if (a == "-L") L = atoi(argv[i + 1]); if (a == "--ops") al = argv[i + 1]; if (a == "--pre") PRE = atoi(argv[i + 1]) != 0; }
    master = new Slot<PA>; box = new Slot<Ctx>; std::string s;
    if (MODE == "pool") gen(al.empty() ? "cmxy=AFkKr" : al, s, L, pool_ok);
    else if (MODE == "ctx") gen(al.empty() ? "nptrwedg" : al, s, L, ctx_ok);
    else gen(al.empty() ? "updmMaA" : al, s, L, 0);
    if (scripts.size() > 250) { fprintf(stderr, "too many scripts\n"); return 2; }
    comb(s, 0);
    if (MODE == "pool") return rt::explore(argc, argv, (int)combos.size(), pool_run, describe, 2);
    if (MODE == "ctx") return rt::explore(argc, argv, (int)combos.size(), ctx_run, describe, 2);
    return rt::explore(argc, argv, (int)combos.size() * 2, traits_run, describe, 2);
}
