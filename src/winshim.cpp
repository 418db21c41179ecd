// The Windows fiber functions, as documented, on top of ucontext; wrong uses end the program.
#include <windows.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <ucontext.h>
namespace winshim {
long live = 0, threads = 0, fail_at = -1, calls = 0, own_memory = 0;
enum St { FRESH, RUNNING, SUSP, DEAD, RETURNED };
struct Fiber { Fiber * next; unsigned long magic; St st; bool thread; ucontext_t uc; LPFIBER_START_ROUTINE fn; LPVOID arg; char * stack; };
static unsigned long const MAGIC = 0xF1BE5F1BE5ul;
static std::size_t const SS = 256 * 1024;
static std::mutex mx;
// own memory, taken from the system directly: harnesses replace malloc and mmap. Released fibers are used again in
// the order of their release and only when there are many, so that a stale handle is recognised.
static Fiber * head = nullptr, * tail = nullptr; static long nfree = 0;
static Fiber * take(bool stack) {
    Fiber * f;
    if (stack && nfree > 48) { f = head; head = f->next; --nfree; char * s = f->stack; memset(f, 0, sizeof *f); f->stack = s; return f; }
    std::size_t n = 4096 + (stack ? SS : 0);
    long r = syscall(SYS_mmap, nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r < 0 && r > -4096) { static char const m[] = "winshim: no memory\n"; (void)!write(2, m, sizeof m); abort(); }
    own_memory += n; f = reinterpret_cast<Fiber *>(r); f->stack = reinterpret_cast<char *>(r) + 4096; return f;
}
static void give(Fiber * f) { f->next = nullptr; if (nfree) tail->next = f; else head = f; tail = f; ++nfree; }
static thread_local Fiber * cur = nullptr;
static struct { char * p; std::size_t n; } maps[512];
static thread_local DWORD err = 0;
[[noreturn]] static void die(char const * m) { fprintf(stderr, "wrong use of the fiber interface: %s\n", m); fflush(stderr); abort(); }
static Fiber * chk(LPVOID p, char const * m) {
    Fiber * f = static_cast<Fiber *>(p);
    if (!f || (reinterpret_cast<std::uintptr_t>(p) & 7) || f->magic != MAGIC || f->st == DEAD) die(m);
    return f;
}
static Fiber * __attribute__((noinline)) current() { return cur; }
char * stack_top() { return current()->stack + SS; }
static void entry() {
    Fiber * f = current();
    f->fn(f->arg);
    die("the function of a fiber returned (this ends the thread)");
}
}
extern "C" bool winshim_create_fails() __attribute__((weak));
using namespace winshim;
extern "C" {
LPVOID ConvertThreadToFiberEx(LPVOID a, DWORD) { return ConvertThreadToFiber(a); }
LPVOID ConvertThreadToFiber(LPVOID a) {
    if (cur) { err = ERROR_ALREADY_FIBER; return nullptr; }
    Fiber * f = take(false);
    f->magic = MAGIC; f->st = RUNNING; f->thread = true; f->arg = a; cur = f; __atomic_add_fetch(&threads, 1, __ATOMIC_RELAXED);
    return f;
}
BOOL ConvertFiberToThread() {
    if (!cur) { err = ERROR_ALREADY_THREAD; return FALSE; }
    if (!cur->thread) die("ConvertFiberToThread() on a fiber that is not the thread's own");
    syscall(SYS_munmap, cur, 4096); cur = nullptr; __atomic_sub_fetch(&threads, 1, __ATOMIC_RELAXED);
    return TRUE;
}
LPVOID CreateFiberEx(SIZE_T c, SIZE_T, DWORD, LPFIBER_START_ROUTINE fn, LPVOID a) { return CreateFiber(c, fn, a); }
LPVOID CreateFiber(SIZE_T, LPFIBER_START_ROUTINE fn, LPVOID a) {
    std::lock_guard<std::mutex> lk(mx);
    if (calls++ == fail_at || (winshim_create_fails && winshim_create_fails())) { err = ERROR_NOT_ENOUGH_MEMORY; return nullptr; }
    Fiber * f = take(true);
    f->magic = MAGIC; f->st = FRESH; f->fn = fn; f->arg = a;
    static int (* const gc)(ucontext_t *) = reinterpret_cast<int (*)(ucontext_t *)>(dlsym(RTLD_DEFAULT, "getcontext"));  // not a replaced one
    gc(&f->uc);
    f->uc.uc_stack.ss_sp = f->stack; f->uc.uc_stack.ss_size = SS; f->uc.uc_link = nullptr;
    makecontext(&f->uc, entry, 0);
    ++live;
    return f;
}
VOID DeleteFiber(LPVOID p) {
    Fiber * f = chk(p, "DeleteFiber() of something that is not a fiber (any more)");
    if (f == current()) die("DeleteFiber() of the running fiber (this ends the thread)");
    if (f->thread) die("DeleteFiber() of a thread's own fiber");
    if (f->st == RUNNING) die("DeleteFiber() of a fiber that runs on another thread");
    std::lock_guard<std::mutex> lk(mx);
    f->st = DEAD; f->magic = 0; --live; give(f);
}
VOID SwitchToFiber(LPVOID p) {
    Fiber * me = current();
    if (!me) die("SwitchToFiber() on a thread that is no fiber");
    Fiber * f = chk(p, "SwitchToFiber() to something that is not a fiber (any more)");
    if (f == me) return;
    if (f->st == RUNNING) die("SwitchToFiber() to a running fiber");
    me->st = SUSP; f->st = RUNNING; cur = f;
    swapcontext(&me->uc, &f->uc);
}
LPVOID GetCurrentFiber() { return cur ? static_cast<LPVOID>(cur) : reinterpret_cast<LPVOID>(0x1E00); }
LPVOID GetFiberData() { return current() ? current()->arg : nullptr; }
BOOL IsThreadAFiber() { return cur != nullptr; }
DWORD GetLastError() { return err; }
VOID SetLastError(DWORD e) { err = e; }
LPVOID VirtualAlloc(LPVOID a, SIZE_T n, DWORD type, DWORD prot) {
    // reserving without committing is not offered
    if (a || !n || !(type & MEM_COMMIT) || prot != PAGE_READWRITE) { err = ERROR_INVALID_PARAMETER; return nullptr; }
    void * p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { err = ERROR_NOT_ENOUGH_MEMORY; return nullptr; }
    std::lock_guard<std::mutex> lk(mx);
    for (auto & m : maps) if (!m.p) { m.p = static_cast<char *>(p); m.n = n; return p; }
    die("too many blocks");
}
BOOL VirtualProtect(LPVOID a, SIZE_T n, DWORD prot, PDWORD old) {
    if (!old || !n) { err = ERROR_INVALID_PARAMETER; return FALSE; }
    std::size_t P = sysconf(_SC_PAGESIZE); char * p = reinterpret_cast<char *>(reinterpret_cast<std::size_t>(a) / P * P);   // every page the range touches
    n = (static_cast<char *>(a) + n - p + P - 1) / P * P;
    int pr = (prot & PAGE_GUARD) || prot == PAGE_NOACCESS ? PROT_NONE : prot == PAGE_READONLY ? PROT_READ : PROT_READ | PROT_WRITE;
    if (mprotect(p, n, pr)) { err = ERROR_INVALID_ADDRESS; return FALSE; }
    *old = PAGE_READWRITE; return TRUE;
}
BOOL VirtualFree(LPVOID a, SIZE_T n, DWORD type) {
    if (type != MEM_RELEASE || n) { err = ERROR_INVALID_PARAMETER; return FALSE; }    // decommitting keeps the addresses: not offered
    std::unique_lock<std::mutex> lk(mx);
    for (auto & m : maps) if (m.p == a && a) { n = m.n; m.p = nullptr; lk.unlock(); munmap(a, n); return TRUE; }
    err = ERROR_INVALID_ADDRESS; return FALSE;
}
VOID GetSystemInfo(SYSTEM_INFO * s) { memset(s, 0, sizeof *s); s->dwPageSize = static_cast<DWORD>(sysconf(_SC_PAGESIZE)); s->dwAllocationGranularity = 65536; s->dwNumberOfProcessors = 1; }
}
