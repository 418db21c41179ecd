// A context on a protected stack runs off the lower end of its stack: the guard page stops it, nothing below it changes.
// Every frame size x requested size x history of switches before the overflow. API 0 fiber 1 call/cc
#if API
# include <boost/context/continuation.hpp>
typedef boost::context::continuation H;
#else
# include <boost/context/fiber.hpp>
typedef boost::context::fiber H;
#endif
#include <boost/context/protected_fixedsize_stack.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
namespace ctx = boost::context;
static char * lo, * hi; static std::size_t want; static volatile long depth;
static void onfault(int, siginfo_t * i, void *) { char * a = (char *)i->si_addr; _exit(a >= lo && a < lo + 4096 ? 42 : 43); }
struct Al {
    ctx::protected_fixedsize_stack a;
    ctx::stack_context allocate() { ctx::stack_context c = a.allocate(); hi = (char *)c.sp; lo = hi - c.size; return c; }
    void deallocate(ctx::stack_context & c) { a.deallocate(c); }
};
template <int N> __attribute__((noinline)) int rec(int d) { volatile char b[N]; for (int i = 0; i < N; i += 64) b[i] = (char)d; depth = d; int r = d < 10000000 ? rec<N>(d + 1) : 0; return r + b[0]; }
static int run(int f, int d) { switch (f) { case 0: return rec<16>(d); case 1: return rec<200>(d); case 2: return rec<1024>(d); default: return rec<2600>(d); } }
int main() {
    long n = 0, total = 0; std::string msg;
    std::vector<std::size_t> sizes; for (std::size_t s : { 8192, 8193, 12287, 12288, 12289, 16384, 20000, 65536, 65537, 131072 }) sizes.push_back(s);
    for (std::size_t s : sizes) for (int f = 0; f < 4; ++f) for (int hist = 0; hist < 3; ++hist) {
        ++total; fflush(stdout);
        pid_t p = fork();
        if (!p) {
            static char st[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = st; ss.ss_size = sizeof st; sigaltstack(&ss, 0);
            struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onfault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
            Al a{ ctx::protected_fixedsize_stack(s) }; want = s;
            auto body = [&](H && h) { H r = std::move(h); for (int i = 0; i < hist; ++i) r = std::move(r).resume(); if (hi - lo < (long)(s + 4096)) _exit(44); run(f, 0); return r; };
#if API
            H h = ctx::callcc(std::allocator_arg, a, body);
#else
            H h(std::allocator_arg, a, body);
#endif
            for (int i = 0; i < 5; ++i) h = std::move(h).resume();
            _exit(45);
        }
        int st; waitpid(p, &st, 0);
        int r = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
        if (r != 42 && msg.empty()) {
            char b[200]; snprintf(b, sizeof b, "a context overflowing a protected stack of %zu bytes (frame class %d, %d switches before) was not stopped by the guard page: %s", s, f, hist, r == 43 ? "it faulted elsewhere" : r == 44 ? "the stack is too small" : r == 45 ? "it did not fault" : "the process died"); msg = b;
        }
        ++n;
    }
    if (!msg.empty()) { printf("{\"violation\":{\"message\":\"%s\"}}\n", msg.c_str()); return 1; }
    printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"samples\":[\"10 sizes x 4 frame sizes x 3 histories\"]}\n", n, n);
    return 0;
}
