// Every system answer x every order of questions: each combination in a fresh process, with sysconf/getrlimit replaced.
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/stack_traits.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
namespace bc = boost::context; typedef bc::stack_traits ST;
struct Shared { volatile long done, asked; volatile int bad; char msg[400]; };
static Shared * sh;
static long page = 4096, minsig = 2048; static rlim_t hard, soft; static long nask;
extern "C" long __real_sysconf(int);
extern "C" long __wrap_sysconf(int n) {
    ++nask;
    if (n == _SC_PAGESIZE) return page;
#ifdef _SC_MINSIGSTKSZ
    if (n == _SC_MINSIGSTKSZ) return minsig;
    if (n == _SC_SIGSTKSZ) return minsig * 4 < 8192 ? 8192 : minsig * 4;
#endif
    return __real_sysconf(n);
}
extern "C" int __wrap_getpagesize() { ++nask; return (int)page; }
extern "C" int __wrap_getrlimit(int k, struct rlimit * r) { ++nask; if (k != RLIMIT_STACK) { r->rlim_cur = r->rlim_max = 77; return 0; } r->rlim_max = hard; r->rlim_cur = soft; return 0; }
extern "C" int __wrap_getrlimit64(int k, struct rlimit * r) { return __wrap_getrlimit(k, r); }
static rlim_t hard0, hard1; static bool changed; static std::string ctxs;
static void bad(char const * what, unsigned long got, unsigned long want) { if (!sh->bad) { snprintf(sh->msg, sizeof sh->msg, "%s answers %lu instead of %lu (questions asked: %s; page size %ld, hard limit %lu, soft limit %lu)", what, got, want, ctxs.c_str(), page, (unsigned long)hard0, (unsigned long)soft); sh->bad = 1; } _exit(1); }
static std::size_t firstmin;
static void ask(char c) {
    ctxs += c;
    switch (c) {
    case 'u': { bool b = ST::is_unbounded(); if (b != (hard0 == RLIM_INFINITY)) bad("is_unbounded()", b, hard0 == RLIM_INFINITY); } break;
    case 'M': if (hard0 != RLIM_INFINITY) { std::size_t m = ST::maximum_size(); if (m != hard0) bad("maximum_size()", m, hard0); } break;
    case 'p': { std::size_t p = ST::page_size(); if ((long)p != page) bad("page_size()", p, (unsigned long)page); } break;
    case 'd': { std::size_t d = ST::default_size(); if (d != 131072) bad("default_size()", d, 131072); if (d < ST::minimum_size()) bad("minimum_size()", ST::minimum_size(), d); } break;
    case 'm': { std::size_t m = ST::minimum_size(); if ((long)m < minsig) bad("minimum_size()", m, (unsigned long)minsig); if (m > 131072) bad("minimum_size()", m, 131072); if (firstmin && m != firstmin) bad("minimum_size()", m, firstmin); firstmin = m; } break;
    }
}
static void * tmain(void * v) { ask((char)(long)v); return 0; }
int main(int argc, char ** argv) {
    int len = argc > 1 ? atoi(argv[1]) : 3; bool quick = argc > 2 && !strcmp(argv[2], "quick");
    int W = (int)__real_sysconf(_SC_NPROCESSORS_ONLN); Shared * all = (Shared *)mmap(0, sizeof(Shared) * 65, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    rlim_t I = RLIM_INFINITY;
    std::vector<rlim_t> hards = { 0, 1, 4095, 4096, 65536, 131072, 8u << 20, 1u << 31, (rlim_t)1 << 32, ((rlim_t)1 << 32) + 1, ((rlim_t)1 << 32) - 1, (rlim_t)1 << 63, ((rlim_t)1 << 63) - 1, I - 1, I };
    std::vector<long> pages = { 4096, 8192, 16384, 65536, 1 << 21 };
    std::string al = "uMpdm"; std::vector<std::string> ord; { std::vector<std::string> cur(1); for (int l = 0; l < len; ++l) { std::vector<std::string> nx; for (auto & s : cur) for (char c : al) { nx.push_back(s + c); } for (auto & s : nx) ord.push_back(s); cur = nx; } }
    struct Case { rlim_t h, s; long p, ms; int chg, thr; }; std::vector<Case> cases;
    for (rlim_t h : hards) for (int k = 0; k < 3; ++k) for (long p : pages) for (int chg = 0; chg < 3; ++chg) for (int thr = 0; thr < 2; ++thr) {
        if (quick && p != pages[0] && (k || chg || thr)) continue;
        if (quick && k && thr) continue;
        cases.push_back(Case{h, k == 0 ? h : k == 1 ? h / 2 : 0, p, (p == 8192 ? 3632L : p == 16384 ? 32768L : p == 65536 ? 11952L : 2048L), chg, thr});
    }
    fflush(stdout); std::vector<pid_t> pid(W);
    for (int w = 0; w < W; ++w) if (!(pid[w] = fork())) {
        sh = all + w; long n = 0, k = 0;
        for (auto & c : cases) for (auto & o : ord) {
            if (k++ % W != w) continue;
            pid_t q = fork();
            if (!q) {
                alarm(60); hard = hard0 = c.h; soft = c.s; page = c.p; minsig = c.ms; ctxs.clear();
                // settle every cached answer first, then let the system's hard limit change (it can be lowered at any time)
                bool settled = false; ctxs = "";
                for (size_t i = 0; i < o.size(); ++i) {
                    if (c.thr && i) { pthread_t t; pthread_create(&t, 0, tmain, (void *)(long)o[i]); pthread_join(t, 0); } else ask(o[i]);
                    if (o[i] == 'u' || (o[i] == 'M' && c.h != RLIM_INFINITY)) settled = true;
                    if (settled && c.chg) { if (c.chg == 1) { hard = c.h / 3; soft = 0; } else { hard = c.h == RLIM_INFINITY ? 12345 : RLIM_INFINITY; } }
                }
                sh->asked = sh->asked + nask; _exit(0);
            }
            int st; waitpid(q, &st, 0);
            if (st && !sh->bad) { snprintf(sh->msg, sizeof sh->msg, "the process ended with wait status %#x (questions %s, page size %ld, hard limit %lu)", st, o.c_str(), c.p, (unsigned long)c.h); sh->bad = 1; }
            if (sh->bad) _exit(1);
            ++n; sh->done = n;
        }
        _exit(0);
    }
    long done = 0, asked = 0; std::string m; for (int w = 0; w < W; ++w) { int st; waitpid(pid[w], &st, 0); done += all[w].done; asked += all[w].asked; if (st && m.empty()) m = all[w].bad ? all[w].msg : "internal"; }
    if (!m.empty()) { printf("{\"violation\":{\"message\":\"%s\"}}\n", m.c_str()); return 1; }
    printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"system_answers\":%ld,\"combinations\":%ld,\"samples\":[\"%ld system states x %ld orders of questions\"]}\n", done, done, (long)cases.size(), (long)(cases.size() * ord.size()), (long)cases.size(), (long)ord.size());
    return 0;
}
