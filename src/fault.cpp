// Every memory / system call made while a context is created fails once (and, separately, from there on all of them):
// every place of creation x form of creation x prior contexts x failing call. Also: the function given to resume_with
// cannot be copied or stored. ALLOC: 0 own allocator 1 fixedsize 2 protected 3 pooled; API 0 fiber 1 call/cc
#if API
# include <boost/context/continuation.hpp>
typedef boost::context::continuation H;
#else
# include <boost/context/fiber.hpp>
typedef boost::context::fiber H;
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <functional>
#include <memory>
#include <stdexcept>
#include <system_error>
#include <vector>
#include <sys/wait.h>
#include "sys.h"
extern "C" long __wrap_sysconf(int n) { return sys::__real_sysconf(n); }
#ifdef BOOST_USE_WINFIB
# include <windows.h>
extern "C" bool winshim_create_fails() { return sys::armed && sys::fails('c'); }
#endif
#ifdef SHADOW_STACK_SYSCALL
extern "C" bool shstk_map_fails() { return sys::armed && sys::fails('c'); }
namespace shstk { extern long live; }
#endif
namespace ctx = boost::context;
struct Shared { volatile long evals, faults, threw; volatile int bad; char msg[600]; };
static Shared * sh;
struct Fail {};
static std::string where;
static void bad(std::string const & s) { sys::armed = false; if (!sh->bad) { snprintf(sh->msg, sizeof sh->msg, "%s [%s]", s.c_str(), where.c_str()); sh->bad = 1; } throw Fail(); }
#define REQ(c, m) do { if (!(c)) bad(m); } while (0)
struct OwnError : std::runtime_error { OwnError() : std::runtime_error("own") {} };
static long arena_live = 0, arena_allocs = 0, arena_copies = 0;
struct Own {
    int tag; Own(int t = 7) : tag(t) { ++arena_copies; } Own(Own const & o) : tag(o.tag) { ++arena_copies; } Own(Own && o) noexcept : tag(o.tag) { o.tag = -1; ++arena_copies; } Own & operator=(Own const &) = default; ~Own() { --arena_copies; }
    ctx::stack_context allocate() { if (sys::armed && sys::fails('m')) throw OwnError(); ctx::stack_context c; c.size = 65536; c.sp = (char *)sys::__real_malloc(c.size) + c.size; ++arena_live; ++arena_allocs; return c; }
    void deallocate(ctx::stack_context & c) { if (tag != 7) bad("a stack was released through a moved-from allocator"); sys::__real_free((char *)c.sp - c.size); c.sp = 0; --arena_live; }
};
#if ALLOC == 0
typedef Own AL; static AL mk() { return AL(); }
#elif ALLOC == 1
typedef ctx::fixedsize_stack AL; static AL mk() { return AL(65536); }
#elif ALLOC == 2
typedef ctx::protected_fixedsize_stack AL; static AL mk() { return AL(65536); }
#else
typedef ctx::pooled_fixedsize_stack AL; static AL mk() { return AL(65536, 2, 0); }
#endif
static long fobj = 0, fruns = 0; static long copies = 0, copy_fail = -1;
struct Fn { // counted function object
    int * out; Fn(int * o) : out(o) { ++fobj; } Fn(Fn const & f) : out(f.out) { if (copies++ == copy_fail) throw OwnError(); ++fobj; } Fn(Fn && f) noexcept : out(f.out) { ++fobj; } ~Fn() { --fobj; }
    H operator()(H && h) { ++fruns; ++*out; H r = std::move(h); r = std::move(r).resume(); ++*out; return r; }
};
struct FnMove { Fn f; std::unique_ptr<int> u; FnMove(int * o) : f(o) {} FnMove(FnMove &&) = default; H operator()(H && h) { return f(std::move(h)); } };
// prior contexts
static int obs[4];
struct Peer { H h; int n = 0; };
static H peer_body(int * n, H && h) { H r = std::move(h); for (int i = 0; i < 100; ++i) { ++*n; r = std::move(r).resume(); } return r; }
template <class A, class F> static H create(int form, A & al, F && f, ctx::stack_context const & sc) {
    ctx::preallocated pa(sc.sp, sc.size, sc);
    struct Arm { Arm() { sys::armed = true; } ~Arm() { sys::armed = false; } } arm;
#if API
    if (form == 0) return ctx::callcc(std::allocator_arg, al, std::forward<F>(f));
    if (form == 1) return ctx::callcc(std::allocator_arg, A(al), std::forward<F>(f));
    if (form == 2) return ctx::callcc(std::allocator_arg, pa, al, std::forward<F>(f));
    if (form == 3) return ctx::callcc(std::allocator_arg, pa, A(al), std::forward<F>(f));
    return ctx::callcc(std::forward<F>(f));
#else
    if (form == 0) return H(std::allocator_arg, al, std::forward<F>(f));
    if (form == 1) return H(std::allocator_arg, A(al), std::forward<F>(f));
    if (form == 2) return H(std::allocator_arg, pa, al, std::forward<F>(f));
    if (form == 3) return H(std::allocator_arg, pa, A(al), std::forward<F>(f));
    return H(std::forward<F>(f));
#endif
}
// one creation attempt in the current context; returns true if calls were left to fail
static bool attempt(int form, int fk, long n, bool from, AL & al, H * out, int * cnt) {
    long fo = fobj, fr = fruns, b0 = (long)sys::live().size(), al0 = arena_live, ac0 = arena_copies; *cnt = 0;
    bool isp = form == 2 || form == 3;      // the caller supplies the stack
    ctx::stack_context palloc;
    if (isp) { sys::armed = true; palloc = al.allocate(); sys::armed = false; }
    sys::calls = 0; sys::failed = sys::failed_ctx = 0; sys::fail_at = from ? -1 : n; sys::fail_from = from ? n : -1;
    bool threw = false; bool ok_type = false; std::string what;
    {
        Fn f(cnt); FnMove fm(cnt);
        try {
            H h;
            if (fk == 0) h = create(form, al, f, palloc); else if (fk == 1) h = create(form, al, std::move(f), palloc); else h = create(form, al, std::move(fm), palloc);
            *out = std::move(h);
        } catch (Fail const &) { throw; }
          catch (std::bad_alloc const &) { threw = true; ok_type = true; }
          catch (OwnError const & e) { threw = true; ok_type = ALLOC == 0; what = e.what(); }
          catch (std::system_error const & e) { threw = true; ok_type = sys::failed_ctx > 0; what = e.what(); }
          catch (std::exception const & e) { threw = true; ok_type = sys::failed_ctx > 0; what = e.what(); }
        sys::armed = false; sys::fail_at = sys::fail_from = -1;
        sh->evals = sh->evals + 1; if (sys::failed) sh->faults = sh->faults + 1; if (threw) sh->threw = sh->threw + 1;
        REQ(!sys::failed || threw || ALLOC == 3, "a call made while creating the context failed and nothing was reported");
        REQ(!threw || sys::failed, "creation failed although no call failed");
        if (threw) {
            REQ(ok_type, "a failed creation was reported as " + what);
            REQ(fruns == fr && *cnt == 0, "the function ran although the creation failed");
            REQ(!*out, "a failed creation produced a context");
            REQ(fobj == fo + 2, "a failed creation left copies of the function object alive or destroyed one twice");
            REQ(arena_copies == ac0, "a failed creation left copies of the allocator alive or destroyed one twice");
            // a supplied stack is handed over with its allocator: also released
            REQ(arena_live == al0, "a failed creation did not release the stack exactly once");
            if (ALLOC != 3) REQ((long)sys::live().size() == b0, "a failed creation did not give back what it had obtained");
        }
    }
    REQ(sys::problem.empty(), sys::problem);
    long seen = sys::calls;
    if (!threw) { REQ(!!*out, "creation succeeded without a context"); }
    return from ? n < seen : n < seen;
}
static void scenario(int place, int form, int fk, int prior, bool from) {
    for (long n = 0; n < 50; ++n) {
        sys::reset(); fobj = fruns = 0; arena_live = arena_copies = 0; bool more = false;
        where = "place " + std::to_string(place) + " form " + std::to_string(form) + " function " + std::to_string(fk) + " prior " + std::to_string(prior) + (from ? " all calls from " : " call ") + std::to_string(n);
        {
            AL al = mk(); int cnt = 0, n0 = 0, n1 = 0;
            H p0, p1; int exp0 = 0;
            auto b0 = [&n0](H && h) { return peer_body(&n0, std::move(h)); };
            sys::armed = false;
            if (prior > 0) {
#if API
                p0 = ctx::callcc(std::allocator_arg, al, b0); exp0 = 1;
#else
                p0 = H(std::allocator_arg, al, b0);
#endif
                if (prior > 1) { p0 = std::move(p0).resume(); ++exp0; }
                REQ(n0 == exp0, "a context did not run as expected");
            }
            H made;
            auto body = [&] {
                more = attempt(form, fk, n, from, al, &made, &cnt);
                bool got = !!made;
                if (got) {
                    // the new context works
                    if (API) REQ(cnt == 1, "the function did not run"); else { REQ(cnt == 0, "the function ran too early"); made = std::move(made).resume(); REQ(cnt == 1, "the function did not run"); }
                    made = std::move(made).resume(); REQ(cnt == 2 && !made, "the function did not finish"); made = H();
                }
                // everything else is as before
                if (prior > 0) { p0 = std::move(p0).resume(); ++exp0; REQ(n0 == exp0 && !!p0, "an existing context does not continue after a failed creation"); }
                // and a creation with the same allocator succeeds now
                int c2 = 0; H again; attempt(0, 0, -1, false, al, &again, &c2); REQ(!!again, "a later creation failed");
                if (!API) again = std::move(again).resume();
                REQ(c2 == 1, "a later context did not run"); again = std::move(again).resume(); REQ(c2 == 2 && !again, "a later context did not finish");
            };
            if (place == 0) body();
            else {
                bool fin = false, failed = false; auto inner = [&](H && h) { H r = std::move(h); try { body(); fin = true; } catch (Fail const &) { failed = true; } return r; };
                H c;
                if (place == 1) {
#if API
                    c = ctx::callcc(std::allocator_arg, Own(), inner);
#else
                    c = H(std::allocator_arg, Own(), inner); c = std::move(c).resume();
#endif
                } else {
                    int q = 0; auto idle = [&q](H && h) { return peer_body(&q, std::move(h)); };
#if API
                    c = ctx::callcc(std::allocator_arg, Own(), idle);
#else
                    c = H(std::allocator_arg, Own(), idle); c = std::move(c).resume();
#endif
                    c = std::move(c).resume_with(inner);
                }
                if (failed) throw Fail();
                REQ(fin, "the creating context did not finish");
            }
        }
        REQ(fobj == 0, "function objects are left over"); REQ(arena_live == 0, "stacks of the user's allocator are left over"); REQ(arena_copies == 0, "copies of the allocator are left over");
#ifdef SHADOW_STACK_SYSCALL
        REQ(shstk::live == 0, "shadow stacks are left over");
#endif
        REQ(sys::live().empty(), "memory was not given back"); REQ(sys::problem.empty(), sys::problem);
        if (!more) break;
    }
}
// the function of resume_with cannot be copied / stored
struct Ont { int * ran; int big[16]; Ont(int * r) : ran(r) { ++fobj; } Ont(Ont const & o) : ran(o.ran) { if (copies++ == copy_fail) throw OwnError(); ++fobj; } Ont(Ont && o) noexcept : ran(o.ran) { ++fobj; } ~Ont() { --fobj; } H operator()(H && h) { ++*ran; return std::move(h); } };
static void with_failures(int prior, bool mem, bool temp, int place) {
    for (long n = 0; n < 20; ++n) {
        sys::reset(); fobj = 0; arena_live = arena_copies = 0; copies = 0; copy_fail = -1; bool threw = false; long left = 0;
        where = std::string("resume_with, ") + (mem ? "memory call " : "copy ") + std::to_string(n) + (temp ? " temporary" : " named") + " prior " + std::to_string(prior) + " place " + std::to_string(place);
        {
            int n0 = 0, ran = 0, e0 = 0; auto b0 = [&n0](H && h) { return peer_body(&n0, std::move(h)); };
#if API
            H p = ctx::callcc(std::allocator_arg, Own(), b0); e0 = 1;
#else
            H p = H(std::allocator_arg, Own(), b0);
#endif
            for (int i = 0; i < prior; ++i) { p = std::move(p).resume(); ++e0; }
            auto body = [&] {
                Ont f(&ran); copies = 0; copy_fail = mem ? -1 : n; sys::calls = 0; sys::fail_at = mem ? n : -1; sys::failed = 0;
                H r;
                try { sys::armed = mem; r = temp ? std::move(p).resume_with(Ont(&ran)) : std::move(p).resume_with(f); sys::armed = false; }
                catch (OwnError const &) { sys::armed = false; threw = true; } catch (std::bad_alloc const &) { sys::armed = false; threw = true; }
                sys::fail_at = -1; copy_fail = -1; left = mem ? sys::calls - n : copies - n;
                sh->evals = sh->evals + 1;
                if (threw) {
                    sh->threw = sh->threw + 1; sh->faults = sh->faults + 1;
                    REQ(n0 == e0 && ran == 0, "the target ran although the function could not be copied");
                    REQ(!!p, "the context is no longer denoted although resume_with failed"); REQ(fobj == 1, "copies of the function are left over");
                    // the bookkeeping is intact: other contexts can be created and resumed, then the target
                    int n1 = 0; auto b1 = [&n1](H && h) { return peer_body(&n1, std::move(h)); };
#if API
                    H o = ctx::callcc(std::allocator_arg, Own(), b1);
#else
                    H o = H(std::allocator_arg, Own(), b1); o = std::move(o).resume();
#endif
                    o = std::move(o).resume(); REQ(n1 == 2 && !!o, "another context does not work after resume_with failed");
                    p = std::move(p).resume(); ++e0; REQ(n0 == e0 && ran == 0 && !!p, "the target does not work after resume_with failed");
                    p = std::move(p).resume_with(f); ++e0; REQ(n0 == e0 && ran == 1 && !!p, "a later resume_with does not work");
                } else { ++e0; REQ(ran == 1 && n0 == e0 && !!r, "resume_with did not work"); p = std::move(r); }
            };
            if (place == 0) body();
            else { bool failed = false, fin = false; auto inner = [&](H && h) { H r = std::move(h); try { body(); fin = true; } catch (Fail const &) { failed = true; } return r; };
#if API
                H c = ctx::callcc(std::allocator_arg, Own(), inner);
#else
                H c = H(std::allocator_arg, Own(), inner); c = std::move(c).resume();
#endif
                if (failed) throw Fail(); REQ(fin, "the resuming context did not finish"); }
        }
        REQ(fobj == 0, "function objects are left over"); REQ(arena_live == 0 && arena_copies == 0, "stacks or allocators are left over"); REQ(sys::live().empty(), "memory was not given back");
        if (left <= 0) break;
    }
}
int main() {
    sh = (Shared *)sys::__real_mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // the thread's own bookkeeping exists before any call is made to fail
    { int n = 0; auto b = [&n](H && h) { return std::move(h); };
#if API
      H h = ctx::callcc(b);
#else
      H h(b); h = std::move(h).resume();
#endif
    }
    fflush(stdout); pid_t c = fork();
    if (!c) {
        alarm(300);
        try {
            for (int from = 0; from < 2; ++from) for (int prior = 0; prior < 3; ++prior) for (int place = 0; place < 3; ++place) for (int form = 0; form < 5; ++form) for (int fk = 0; fk < 3; ++fk) {
                scenario(place, form, fk, prior, from);
            }
            for (int prior = 0; prior < 3; ++prior) for (int mem = 0; mem < 2; ++mem) for (int temp = 0; temp < 2; ++temp) for (int place = 0; place < 2; ++place) with_failures(prior, mem, temp, place);
        } catch (Fail const &) { _exit(1); }
        _exit(0);
    }
    int st; waitpid(c, &st, 0);
    if (st && !sh->bad) { snprintf(sh->msg, sizeof sh->msg, "the process ended with wait status %#x after %ld attempts", st, sh->evals); sh->bad = 1; }
    if (sh->bad) { std::string m; for (char const * q = sh->msg; *q; ++q) if (*q != '"' && *q != '\n') m += *q; printf("{\"violation\":{\"message\":\"%s\"}}\n", m.c_str()); return 1; }
    printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"failing_calls\":%ld,\"reported\":%ld,\"samples\":[\"%s\"]}\n", sh->evals, sh->faults, sh->faults, sh->threw, "creation in main / in a context / in a function on top; 5 forms x 3 kinds of function x 3 histories x every failing call");
    return 0;
}
