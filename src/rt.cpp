#include "rt.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <string>
#include <vector>
#include <exception>
#include <cxxabi.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" { int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_once(pthread_once_t *, void (*)()); int __real_sched_yield(); void * __real_mmap(void *, std::size_t, int, int, int, off_t); int __real_munmap(void *, std::size_t); void * __real_malloc(std::size_t); void __real_free(void *); long __real_sysconf(int); }
namespace rt {
enum { MT = 6, MAXSTEP = 600 };
typedef std::uint32_t Clk;
struct VC { Clk c[MT]; void join(VC const & o) { for (int i = 0; i < MT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum State { NONE, READY, BLOCKED, DONE };
struct Thread { State st; void const * wait; VC vc; sem_t sem; void (*f)(void *); void * a; int run; bool yielded; };
static Thread th[MT]; static int nth = 0;
static thread_local int me = -1;           // -1: not a controlled thread
static bool on = false;                    // controlled execution in progress
int self() { return me; }
// ---------------------------------------------------------------- shared between explorer and runs
struct Shared { volatile int bad; char msg[600]; volatile int steps, outcome; unsigned char alt[MAXSTEP], pick[MAXSTEP]; volatile long accesses, points; volatile unsigned long notes; };
static Shared * sh;
static unsigned char prefix[MAXSTEP]; static int plen = 0, bound = 2, preempt = 0, step = 0; static long points = 0, accesses = 0;
static void die() { sh->steps = step; sh->accesses = accesses; sh->points = points; _exit(1); }
void fail(char const * fmt, ...) { va_list a; va_start(a, fmt); if (!sh->bad) { vsnprintf(sh->msg, sizeof sh->msg, fmt, a); sh->bad = 1; } va_end(a); die(); abort(); }
void note(int v) { sh->notes |= 1ul << (v & 63); }
// ---------------------------------------------------------------- scheduler
static void wake(int t) { sem_post(&th[t].sem); }
static void park(int t) { while (sem_wait(&th[t].sem)) ; }
static int choose(int cur, bool curok) {   // next thread to run, -1 if none
    int cand[MT], n = 0;
    bool fair = curok && (th[cur].yielded || th[cur].run > 300);    // a spinning thread has to let the others run
    if (curok && !fair) cand[n++] = cur;
    for (int i = 0; i < nth; ++i) if (i != cur && th[i].st == READY) cand[n++] = i;
    if (fair && !n) cand[n++] = cur;
    if (fair) { th[cur].yielded = false; th[cur].run = 0; }
    if (!n) return -1;
    int alts = n;
    if (curok && !fair && preempt >= bound) alts = 1;
    int k = 0;
    if (alts > 1) {
        if (step >= MAXSTEP) fail("internal: more than %d decisions in one execution", (int)MAXSTEP);
        if (step < plen) { k = prefix[step]; if (k >= alts) fail("internal: the execution does not follow its schedule"); }
        sh->alt[step] = (unsigned char)alts; sh->pick[step] = (unsigned char)k; ++step; sh->steps = step;
    }
    if (curok && !fair && k) ++preempt;
    return cand[k];
}
static void hand(int cur, bool curok) {
    int nx = choose(cur, curok);
    if (nx < 0) {
        bool all = true; for (int i = 0; i < nth; ++i) if (th[i].st != DONE) all = false;
        if (all) return;
        fail("deadlock: no thread can continue");
    }
    if (nx == cur) { ++th[cur].run; return; }
    th[nx].run = 0; wake(nx);
    if (cur >= 0 && th[cur].st != DONE) park(cur);
}
static void point() { if (me < 0 || !on) return; ++points; hand(me, true); }
static void block(void const * w) { th[me].st = BLOCKED; th[me].wait = w; hand(me, false); }
static void unblock(void const * w) { for (int i = 0; i < nth; ++i) if (th[i].st == BLOCKED && th[i].wait == w) { th[i].st = READY; th[i].wait = 0; } }
static void tick() { if (me >= 0) ++th[me].vc.c[me]; }
static pthread_key_t endkey;
static void ended(void * v) {   // runs after the thread's own destructors of thread_local objects
    int t = (int)(long)v - 1; if (me != t) me = t;
    th[t].st = DONE; unblock(&th[t]); me = -1;
    int nx = choose(t, false);
    if (nx >= 0) { th[nx].run = 0; wake(nx); return; }
    bool all = true; for (int i = 0; i < nth; ++i) if (th[i].st != DONE) all = false;
    if (!all) fail("deadlock: no thread can continue");
}
static void * tramp(void * v) { int t = (int)(long)v; me = t; pthread_setspecific(endkey, (void *)(long)(t + 1)); park(t); th[t].f(th[t].a); return 0; }
static pthread_t tid[MT];
static int make(void (*f)(void *), void * a) {
    if (nth == MT) fail("internal: too many threads");
    int t = nth++; th[t].st = READY; th[t].f = f; th[t].a = a; sem_init(&th[t].sem, 0, 0); memset(&th[t].vc, 0, sizeof(VC));
    if (me >= 0) { th[t].vc = th[me].vc; tick(); } th[t].vc.c[t] = 1;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 * 1024);
    if (pthread_create(&tid[t], &at, tramp, (void *)(long)t)) fail("internal: cannot create a thread");
    return t;
}
int spawn(void (*f)(void *), void * a) { int t = make(f, a); point(); return t; }
void join(int t) { point(); while (th[t].st != DONE) block(&th[t]); th[me].vc.join(th[t].vc); pthread_join(tid[t], 0); }
// ---------------------------------------------------------------- clocks of synchronisation objects
struct Loc { void const * p; VC vc; bool set; };
static Loc locs[4096]; static int nlocs = 0;
static Loc & loc(void const * p) { for (int i = 0; i < nlocs; ++i) if (locs[i].p == p) return locs[i]; if (nlocs == 4096) fail("internal: too many synchronisation objects"); Loc & l = locs[nlocs++]; l.p = p; memset(&l.vc, 0, sizeof(VC)); l.set = false; return l; }
static void acq(void const * p) { if (me < 0) return; Loc & l = loc(p); if (l.set) th[me].vc.join(l.vc); }
static void rel(void const * p, bool keep) { if (me < 0) return; Loc & l = loc(p); if (keep && l.set) l.vc.join(th[me].vc); else l.vc = th[me].vc; l.set = true; tick(); }
void Mutex::lock() { point(); while (owner >= 0) block(this); owner = me; acq(this); }
void Mutex::unlock() { rel(this, false); owner = -1; unblock(this); point(); }
// ---------------------------------------------------------------- memory
struct Cell { std::uintptr_t a; Clk w; Clk r[MT]; signed char wt; bool at; void * wpc; };
enum { NC = 1 << 17 };
static Cell * cells; static long ncells = 0; static int * used;
static Cell * cell(std::uintptr_t a, bool make) {
    std::size_t h = (((a >> 6) * 0x9E3779B97F4A7C15ull) >> 53 << 6) | (a & 63);   // 2^17 cells, neighbours stay together
    for (;; h = (h + 1) & (NC - 1)) { if (cells[h].a == a) return &cells[h]; if (!cells[h].a) { if (!make) return 0; if (++ncells > NC * 3 / 4) fail("internal: too many monitored bytes"); used[ncells - 1] = (int)h; cells[h].a = a; cells[h].wt = -1; return &cells[h]; } }
}
struct Blk { std::uintptr_t a; std::size_t n; char kind; bool live; int fby; };
static Blk blks[4096]; static int nblk = 0;
static char * arena, * apos; static std::size_t const ASZ = std::size_t(256) << 20;
static bool in_arena(std::uintptr_t a) { return a >= (std::uintptr_t)arena && a < (std::uintptr_t)arena + ASZ; }
static Blk * find(std::uintptr_t a) { int lo = 0, hi = nblk; while (lo < hi) { int m = (lo + hi) / 2; if (blks[m].a <= a) lo = m + 1; else hi = m; } return lo ? &blks[lo - 1] : 0; }
long live_blocks() { long n = 0; for (int i = 0; i < nblk; ++i) n += blks[i].live; return n; }
static std::string where(void * pc) {
    Dl_info i; if (!dladdr(pc, &i)) return "?";
    char b[64]; snprintf(b, sizeof b, "+%#lx", (unsigned long)((char *)pc - (char *)i.dli_fbase)); std::string s = b;
    if (i.dli_sname) { int st; char * d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st); s = std::string(st ? i.dli_sname : d).substr(0, 120) + s; }
    return s;
}
static void access_(void const * p, std::size_t n, bool wr, bool atomic, void * pc) {
    if (me < 0 || !on) return;
    ++accesses; std::uintptr_t a = (std::uintptr_t)p;
    if (in_arena(a)) {
        Blk * b = find(a);
        if (!b || a + n > b->a + b->n) fail("access to memory outside every block (%s of %zu bytes)", wr ? "write" : "read", n);
        if (!b->live) fail("access to a block of %zu bytes after it was given back (%s by thread %d, given back by thread %d)", b->n, wr ? "write" : "read", me, b->fby);
    }
    VC & v = th[me].vc;
    for (std::size_t i = 0; i < n; ++i) {
        Cell * c = cell(a + i, true);
        if (c->wt >= 0 && c->wt != me && c->w > v.c[c->wt] && !(atomic && c->at)) fail("data race: %s by thread %d (%s) is not ordered after a write by thread %d (%s)", atomic ? "atomic access" : wr ? "write" : "read", me, where(pc).c_str(), c->wt, where(c->wpc).c_str());
        if (wr) { for (int t = 0; t < MT; ++t) if (t != me && c->r[t] > v.c[t] && !(atomic && c->at)) fail("data race: write by thread %d is not ordered after a read by thread %d", me, t);
            c->w = v.c[me]; c->wt = (signed char)me; c->at = atomic; memset(c->r, 0, sizeof c->r); }
        else { c->r[me] = v.c[me]; if (!atomic) c->at = false; }
    }
}
static inline __attribute__((always_inline)) void access(void const * p, std::size_t n, bool wr, bool atomic) { access_(p, n, wr, atomic, __builtin_return_address(0)); }
static void * get(std::size_t n, std::size_t al, char kind) {
    if (nblk == 4096 || (std::size_t)(arena + ASZ - apos) < n + al + 128) fail("internal: arena full");
    std::uintptr_t a = ((std::uintptr_t)apos + 64 + al - 1) / al * al; apos = (char *)a + n;
    blks[nblk++] = Blk{a, n ? n : 1, kind, true, -1};
    return (void *)a;
}
static bool put(void * p, char kind) {
    if (!in_arena((std::uintptr_t)p)) return false;
    Blk * b = find((std::uintptr_t)p);
    if (!b || b->a != (std::uintptr_t)p) fail("something that is not the start of a block was given back");
    if (!b->live) fail("a block of %zu bytes was given back twice (by threads %d and %d)", b->n, b->fby, me);
    if (b->kind != kind) fail("a block was given back by the wrong function");
    if (me >= 0 && on) { VC & v = th[me].vc;   // giving back is a write to all of it
        if (b->n <= 4096) for (std::size_t i = 0; i < b->n; ++i) { Cell * c = cell(b->a + i, false); if (!c) continue;
            if (c->wt >= 0 && c->wt != me && c->w > v.c[c->wt]) fail("data race: a block is given back by thread %d, not ordered after a write to it by thread %d", me, c->wt);
            for (int t = 0; t < MT; ++t) if (t != me && c->r[t] > v.c[t]) fail("data race: a block is given back by thread %d, not ordered after a read of it by thread %d", me, t); }
        else for (long k = 0; k < ncells; ++k) { Cell * c = &cells[used[k]]; if (c->a < b->a || c->a >= b->a + b->n) continue;
            if (c->wt >= 0 && c->wt != me && c->w > v.c[c->wt]) fail("data race: a block is given back by thread %d, not ordered after a write to it by thread %d", me, c->wt);
            for (int t = 0; t < MT; ++t) if (t != me && c->r[t] > v.c[t]) fail("data race: a block is given back by thread %d, not ordered after a read of it by thread %d", me, t); }
    }
    b->live = false; b->fby = me;
    return true;
}
// ---------------------------------------------------------------- explorer
struct Item { int scen; int len; unsigned char p[MAXSTEP]; };
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void (*runfn)(int); static int scen;
static void root(void *) { runfn(scen); }
static void onsig(int s) { char const m[] = "the process was killed by a signal (invalid memory access)"; if (!sh->bad) { memcpy(sh->msg, m, sizeof m); sh->bad = 1; } (void)s; _exit(1); }
static void onterm() { if (!sh->bad) { strcpy(sh->msg, "std::terminate was called"); sh->bad = 1; } _exit(1); }
static void child() {
    std::set_terminate(onterm); alarm(100); on = true; preempt = step = 0; points = accesses = 0; nth = 0; me = -1;
    static char ss[32768]; stack_t st; memset(&st, 0, sizeof st); st.ss_sp = ss; st.ss_size = sizeof ss; sigaltstack(&st, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGABRT, &sa, 0);
    pthread_key_create(&endkey, ended);
    make(root, 0); wake(0); pthread_join(tid[0], 0);
    for (int i = 1; i < nth; ++i) if (th[i].st != DONE) fail("internal: a thread outlives the scenario");
    if (long n = live_blocks()) fail("%ld block(s) were not given back when every thread had ended", n);
    sh->steps = step; sh->accesses = accesses; sh->points = points;
    _exit(0);
}
static std::string esc(char const * s) { std::string r; for (; *s; ++s) { if (*s == '"' || *s == '\\') r += '\\'; if (*s != '\n') r += *s; } return r; }
struct Pool { volatile int lock; volatile long n, active, runs, points, accesses, decisions, maxsteps; volatile int bad, capped, nextscen; Item viol; char msg[600]; volatile unsigned long notes; long cap; Item it[1]; };
static void lk(Pool * p) { while (__sync_lock_test_and_set(&p->lock, 1)) __real_sched_yield(); }
static void ul(Pool * p) { __sync_lock_release(&p->lock); }
static int one(Item const & x) {   // executes one schedule; 0 fine, 1 violation
    scen = x.scen; plen = x.len; memcpy(prefix, x.p, (size_t)x.len);
    sh->bad = 0; sh->steps = 0; sh->accesses = sh->points = 0; sh->msg[0] = 0;
    pid_t c = fork(); if (c < 0) { sleep(1); c = fork(); }
    if (!c) { child(); }
    int st; waitpid(c, &st, 0);
    if (st && !sh->bad) { snprintf(sh->msg, sizeof sh->msg, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "the program does not terminate" : "the process ended with wait status %#x", st); sh->bad = 1; }
    return sh->bad;
}
int explore(int argc, char ** argv, int n, void (*run)(int), void (*describe)(int, char *, std::size_t), int bnd) {
    runfn = run; bound = bnd; double budget = 1e9; std::string rp; int from = 0;
    int workers = (int)__real_sysconf(_SC_NPROCESSORS_ONLN);
    for (int i = 1; i + 1 < argc; ++i) { std::string a = argv[i]; if (a == "--budget") budget = atof(argv[i + 1]); if (a == "--bound") bound = atoi(argv[i + 1]); if (a == "--schedule") rp = argv[i + 1]; if (a == "--scenario") from = atoi(argv[i + 1]); if (a == "--workers") workers = atoi(argv[i + 1]); }
    arena = apos = (char *)__real_mmap(0, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cells = (Cell *)__real_mmap(0, sizeof(Cell) * NC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    used = (int *)__real_mmap(0, sizeof(int) * NC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    long cap = 200000;
    Pool * p = (Pool *)__real_mmap(0, sizeof(Pool) + sizeof(Item) * cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Shared * all = (Shared *)__real_mmap(0, sizeof(Shared) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    p->cap = cap; char d[400];
    if (!rp.empty()) {
        Item x; memset(&x, 0, sizeof x); x.scen = from; for (char const * s = rp.c_str(); *s; ++s) if (*s >= '0' && *s <= '9') x.p[x.len++] = (unsigned char)(*s - '0');
        sh = all; int b = one(x); describe(from, d, sizeof d);
        if (b) { printf("{\"violation\":{\"message\":\"%s; scenario: %s\"}}\n", esc(sh->msg).c_str(), esc(d).c_str()); return 1; }
        printf("{\"evaluations\":1}\n"); return 0;
    }
    fflush(stdout); double until = now() + budget; if (workers > 60) workers = 60; std::vector<pid_t> pid(workers);
    for (int w = 0; w < workers; ++w) if (!(pid[w] = fork())) {
        sh = all + w; Item x;
        for (;;) {
            lk(p);
            if (p->bad) { ul(p); _exit(0); }
            if (p->n) { memcpy(&x, &p->it[--p->n], offsetof(Item, p)); memcpy(x.p, p->it[p->n].p, (size_t)x.len); ++p->active; ul(p); }
            else if (p->nextscen < n) { x.scen = p->nextscen++; x.len = 0; ++p->active; ul(p); }
            else if (p->active) { ul(p); __real_sched_yield(); continue; }
            else { ul(p); _exit(0); }
            if (now() > until) { lk(p); p->capped = 1; p->n = 0; p->nextscen = n; --p->active; ul(p); _exit(0); }
            int b = one(x);
            lk(p);
            ++p->runs; p->points += sh->points; p->accesses += sh->accesses; p->decisions += sh->steps; p->notes |= sh->notes; if (sh->steps > p->maxsteps) p->maxsteps = sh->steps;
            if (b) { if (!p->bad) { p->bad = 1; p->viol.scen = x.scen; p->viol.len = sh->steps; memcpy(p->viol.p, sh->pick, sizeof sh->pick); memcpy(p->msg, sh->msg, sizeof p->msg); } }
            else for (int s = x.len; s < sh->steps && !p->bad; ++s) for (int k = 1; k < sh->alt[s]; ++k) {
                if (p->n >= p->cap) { p->capped = 1; break; }
                Item & y = p->it[p->n++]; y.scen = x.scen; y.len = s + 1; memcpy(y.p, sh->pick, (size_t)s); y.p[s] = (unsigned char)k;
            }
            --p->active; ul(p);
        }
    }
    bool lost = false;
    for (int w = 0; w < workers; ++w) { int st; waitpid(pid[w], &st, 0); if (st) lost = true; }
    if (p->bad) {
        std::string s; for (int i = 0; i < p->viol.len; ++i) s += (char)('0' + p->viol.p[i]); if (s.empty()) s = "-";
        describe(p->viol.scen, d, sizeof d);
        printf("{\"violation\":{\"message\":\"%s; scenario: %s; schedule: %s\",\"replay\":[", esc(p->msg).c_str(), esc(d).c_str(), s.c_str());
        for (int i = 1; i < argc; ++i) printf("\"%s\",", argv[i]);
        printf("\"--bound\",\"%d\",\"--scenario\",\"%d\",\"--schedule\",\"%s\"]}}\n", bound, p->viol.scen, s.c_str());
        return 1;
    }
    if (lost) { printf("internal: a worker died\n"); return 4; }
    char d2[400]; describe(n / 2, d, sizeof d); describe(n - 1, d2, sizeof d2);
    printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"states\":%d,\"transitions\":%ld,\"schedules\":%ld,\"scenarios\":%d,\"scheduling_points\":%ld,\"memory_accesses\":%ld,\"longest\":%ld,\"preemptions\":%d,\"outcomes\":%lu,\"capped\":%s,\"samples\":[\"%s\",\"%s\"]}\n", p->runs, p->runs, n, p->points, p->runs, n, p->points, p->accesses, p->maxsteps, bound, (unsigned long)p->notes, p->capped ? "true" : "false", esc(d).c_str(), esc(d2).c_str());
    return 0;
}
static void atom(void * p, std::size_t n, int mo, bool rd, bool wr) {   // bookkeeping of an atomic operation, before it is performed
    if (me < 0 || !on) return;
    point(); access(p, n, wr, true);
    bool a = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST, r = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    if (rd && a) acq(p);
    if (wr && r) rel(p, rd);
    else if (wr && !rd) loc(p).set = false;
}
static VC fence_vc;
}
using namespace rt;
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define PLAIN(n) void __tsan_read##n(void * p) { access(p, n, false, false); } void __tsan_write##n(void * p) { access(p, n, true, false); } void __tsan_unaligned_read##n(void * p) { access(p, n, false, false); } void __tsan_unaligned_write##n(void * p) { access(p, n, true, false); } \
  void __tsan_read##n##_pc(void * p, void *) { access(p, n, false, false); } void __tsan_write##n##_pc(void * p, void *) { access(p, n, true, false); } void __tsan_read_write##n(void * p) { access(p, n, true, false); } void __tsan_volatile_read##n(void * p) { access(p, n, false, false); } void __tsan_volatile_write##n(void * p) { access(p, n, true, false); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
void __tsan_read_range(void * p, unsigned long n) { access(p, n, false, false); }
void __tsan_write_range(void * p, unsigned long n) { access(p, n, true, false); }
void __tsan_vptr_update(void ** p, void *) { access(p, 8, true, false); }
void __tsan_vptr_read(void ** p) { access(p, 8, false, false); }
void * __tsan_memcpy(void * d, void const * s, unsigned long n) { access(s, n, false, false); access(d, n, true, false); return memcpy(d, s, n); }
void * __tsan_memmove(void * d, void const * s, unsigned long n) { access(s, n, false, false); access(d, n, true, false); return memmove(d, s, n); }
void * __tsan_memset(void * d, int c, unsigned long n) { access(d, n, true, false); return memset(d, c, n); }
#define ATOM(b, T) \
 T __tsan_atomic##b##_load(T const volatile * p, int mo) { atom((void *)p, b / 8, mo, true, false); return *p; } \
 void __tsan_atomic##b##_store(T volatile * p, T v, int mo) { atom((void *)p, b / 8, mo, false, true); *p = v; } \
 T __tsan_atomic##b##_exchange(T volatile * p, T v, int mo) { atom((void *)p, b / 8, mo, true, true); T o = *p; *p = v; return o; } \
 T __tsan_atomic##b##_fetch_add(T volatile * p, T v, int mo) { atom((void *)p, b / 8, mo, true, true); T o = *p; *p = o + v; return o; } \
 T __tsan_atomic##b##_fetch_sub(T volatile * p, T v, int mo) { atom((void *)p, b / 8, mo, true, true); T o = *p; *p = o - v; return o; } \
 T __tsan_atomic##b##_fetch_and(T volatile * p, T v, int mo) { atom((void *)p, b / 8, mo, true, true); T o = *p; *p = o & v; return o; } \
 T __tsan_atomic##b##_fetch_or(T volatile * p, T v, int mo) { atom((void *)p, b / 8, mo, true, true); T o = *p; *p = o | v; return o; } \
 T __tsan_atomic##b##_fetch_xor(T volatile * p, T v, int mo) { atom((void *)p, b / 8, mo, true, true); T o = *p; *p = o ^ v; return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(T volatile * p, T * e, T v, int mo, int fmo) { point(); if (*p == *e) { bool k = on; (void)k; access((void *)p, b / 8, true, true); if (me >= 0 && on) { bool a = mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE, r = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; if (a) acq((void *)p); if (r) rel((void *)p, true); } *p = v; return 1; } access((void *)p, b / 8, false, true); if (me >= 0 && on && fmo != __ATOMIC_RELAXED) acq((void *)p); *e = *p; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(T volatile * p, T * e, T v, int mo, int fmo) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, mo, fmo); } \
 T __tsan_atomic##b##_compare_exchange_val(T volatile * p, T e, T v, int mo, int fmo) { __tsan_atomic##b##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) {   // fences are treated as synchronising with all earlier fences
    if (me < 0 || !on) return; point();
    // an acquire fence after relaxed reads: join every location read so far is approximated by all release clocks
    if (mo != __ATOMIC_RELEASE && mo != __ATOMIC_RELAXED) { for (int i = 0; i < nlocs; ++i) if (locs[i].set) th[me].vc.join(locs[i].vc); th[me].vc.join(fence_vc); }
    if (mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_RELAXED) { fence_vc.join(th[me].vc); tick(); }
}
void __tsan_atomic_signal_fence(int) {}
// function-local statics
int __cxa_guard_acquire(long long * g) {
    unsigned char * b = (unsigned char *)g;
    point();
    for (;;) { if (b[0]) { acq(g); return 0; } if (!b[1]) { b[1] = 1; return 1; } if (me < 0) abort(); block(g); }
}
void __cxa_guard_release(long long * g) { unsigned char * b = (unsigned char *)g; rel(g, false); b[0] = 1; b[1] = 0; unblock(g); point(); }
void __cxa_guard_abort(long long * g) { ((unsigned char *)g)[1] = 0; unblock(g); }
// mutexes the library might use
static bool * held(void const * m) { static void const * k[256]; static bool h[256]; static int n; for (int i = 0; i < n; ++i) if (k[i] == m) return &h[i]; k[n] = m; return &h[n++]; }
int __wrap_pthread_mutex_lock(pthread_mutex_t * m) { if (me < 0 || !on) return __real_pthread_mutex_lock(m); point(); while (*held(m)) block(m); *held(m) = true; acq(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t * m) { if (me < 0 || !on) return __real_pthread_mutex_trylock(m); point(); if (*held(m)) return EBUSY; *held(m) = true; acq(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) { if (me < 0 || !on) return __real_pthread_mutex_unlock(m); rel(m, false); *held(m) = false; unblock(m); point(); return 0; }
int __wrap_pthread_once(pthread_once_t * o, void (*f)()) {
    if (me < 0 || !on) return __real_pthread_once(o, f);
    point(); int * s = (int *)o; for (;;) { if (*s == 2) { acq(o); return 0; } if (*s == 0) { *s = 1; f(); rel(o, false); *s = 2; unblock(o); point(); return 0; } block(o); }
}
int __wrap_sched_yield() { if (me < 0 || !on) return __real_sched_yield(); th[me].yielded = true; point(); return 0; }
// memory
void * __wrap_malloc(std::size_t n) { if (me < 0 || !on) return __real_malloc(n); return get(n, 16, 'm'); }
void * __wrap_calloc(std::size_t a, std::size_t b) { if (me < 0 || !on) { void * p = __real_malloc(a * b); if (p) memset(p, 0, a * b); return p; } return get(a * b, 16, 'm'); }
int __wrap_posix_memalign(void ** r, std::size_t al, std::size_t n) { *r = get(n, al < 16 ? 16 : al, 'm'); return 0; }
void * __wrap_aligned_alloc(std::size_t al, std::size_t n) { return get(n, al < 16 ? 16 : al, 'm'); }
void __wrap_free(void * p) { if (p && !put(p, 'm')) __real_free(p); }
void * __wrap_mmap(void * a, std::size_t n, int pr, int fl, int fd, off_t o) { if (me < 0 || !on || (fl & MAP_FIXED)) return __real_mmap(a, n, pr, fl, fd, o); return get((n + 4095) / 4096 * 4096, 4096, 'p'); }
int __wrap_munmap(void * p, std::size_t n) { return put(p, 'p') ? 0 : __real_munmap(p, n); }
}
void * operator new(std::size_t n) { if (me < 0 || !on) return __real_malloc(n ? n : 1); return get(n, 16, 'n'); }
void operator delete(void * p) noexcept { if (p && !put(p, 'n')) __real_free(p); }
void operator delete(void * p, std::size_t) noexcept { ::operator delete(p); }
void * operator new[](std::size_t n) { return ::operator new(n); }
void operator delete[](void * p) noexcept { ::operator delete(p); }
void operator delete[](void * p, std::size_t) noexcept { ::operator delete(p); }
// exception objects live in memory of the language runtime: it is new each time
extern "C" void * __real___cxa_allocate_exception(std::size_t);
extern "C" void * __wrap___cxa_allocate_exception(std::size_t n) {
    void * p = __real___cxa_allocate_exception(n);
    if (me >= 0 && on) for (std::size_t i = 0; i < n; ++i) if (Cell * c = cell((std::uintptr_t)p + i, false)) { c->wt = -1; memset(c->r, 0, sizeof c->r); }
    return p;
}
