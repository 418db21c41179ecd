// Stand-ins for the memory system calls the library uses (linked with -Wl,--wrap): they count, check, surround every
// block with canaries, emulate other page sizes and can be told to fail. Only calls made while sys::armed are tracked.
#pragma once
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <ucontext.h>
#include <unistd.h>
namespace sys {
static bool armed = false;
static long fail_at = -1, fail_from = -1, calls = 0;  // the fail_at-th fallible call fails / every call from fail_from on
static long fail_at2 = -1;
static long failed = 0, failed_ctx = 0, failed_prot = 0;
static std::size_t page = 4096;                  // what sysconf(_SC_PAGESIZE) answers
static std::string problem;                      // first wrong use of the memory system
static long nalloc = 0, nfree = 0;
struct Blk { std::size_t len; char kind; void * base; std::size_t raw; };   // kind: m malloc, p mmap, n new
struct Raw { template <class T> struct A { typedef T value_type; A() {} template <class U> A(A<U> const &) {} T * allocate(std::size_t n); void deallocate(T * p, std::size_t); template <class U> bool operator==(A<U> const &) const { return true; } template <class U> bool operator!=(A<U> const &) const { return false; } }; };
extern "C" { void * __real_malloc(std::size_t); void __real_free(void *); void * __real_mmap(void *, std::size_t, int, int, int, off_t); int __real_munmap(void *, std::size_t); int __real_mprotect(void *, std::size_t, int); long __real_sysconf(int); int __real_getcontext(ucontext_t *); int __real_posix_memalign(void **, std::size_t, std::size_t); }
template <class T> T * Raw::A<T>::allocate(std::size_t n) { return (T *)__real_malloc(n * sizeof(T)); }
template <class T> void Raw::A<T>::deallocate(T * p, std::size_t) { __real_free(p); }
typedef std::map<char *, Blk, std::less<char *>, Raw::A<std::pair<char * const, Blk> > > Map;
static Map & live() { static Map * m = 0; if (!m) m = new (__real_malloc(sizeof(Map))) Map; return *m; }
static void note(char const * f, unsigned long a = 0, unsigned long b = 0) { if (problem.empty()) { char t[200]; snprintf(t, sizeof t, f, a, b); bool s = armed; armed = false; problem = t; armed = s; } }
static bool fails(char what) {
    long n = calls++;
    if (n == fail_at || n == fail_at2 || (fail_from >= 0 && n >= fail_from)) { ++failed; if (what == 'c') ++failed_ctx; if (what == 'g') ++failed_prot; return true; }
    return false;
}
static std::size_t const RZ = 64; static unsigned char const CAN = 0xEE;
static std::size_t up(std::size_t n, std::size_t a) { return (n + a - 1) / a * a; }
static void reset() { fail_at = fail_at2 = fail_from = -1; calls = 0; failed = failed_ctx = failed_prot = 0; problem.clear(); live().clear(); nalloc = nfree = 0; }
static bool canaries(Map::value_type const & b) {
    if (b.second.kind == 'p') { for (std::size_t i = 0; i < page; ++i) { if (((unsigned char *)b.first)[-1 - (long)i] != CAN) return false; if (((unsigned char *)b.first)[up(b.second.len, page) + i] != CAN) return false; } return true; }
    for (std::size_t i = 0; i < RZ; ++i) if (((unsigned char *)b.first)[-1 - (long)i] != CAN || ((unsigned char *)b.first)[b.second.len + i] != CAN) return false;
    return true;
}
static bool inside(void * p, std::size_t n) { for (auto & b : live()) if ((char *)p >= b.first && (char *)p + n <= b.first + b.second.len) return true; return false; }
static void * get(std::size_t n, std::size_t al, char kind) {
    if (n > (std::size_t(1) << 28)) { errno = ENOMEM; return 0; }
    if (al < 16) al = 16;
    std::size_t raw = n + 2 * RZ + al; char * b = (char *)__real_malloc(raw);
    char * p = (char *)up((std::size_t)b + RZ, al);
    memset(b, CAN, raw); memset(p, 0xCD, n);
    live()[p] = Blk{n, kind, b, raw}; ++nalloc;
    return p;
}
static bool put(void * q, char kind) {     // true if the block was ours
    auto it = live().find((char *)q);
    if (it == live().end()) return false;
    if (it->second.kind != kind) note("a block was released by the wrong function");
    if (!canaries(*it)) note("memory next to a block of %lu bytes was overwritten", it->second.len);
    memset(it->second.base, 0xDD, it->second.raw);
    __real_free(it->second.base); live().erase(it); ++nfree;
    return true;
}
static char * lastfreed[64]; static int nlast = 0;
static void remember(void * p) { lastfreed[nlast++ & 63] = (char *)p; }
}
#ifdef SHADOW_STACK_SYSCALL
extern "C" bool shstk_owns(void *);
#endif
extern "C" {
void * __wrap_malloc(std::size_t n) { if (!sys::armed) return sys::__real_malloc(n); if (sys::fails('m')) { errno = ENOMEM; return 0; } return sys::get(n, 16, 'm'); }
void * __wrap_calloc(std::size_t a, std::size_t b) { void * p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
int __wrap_posix_memalign(void ** r, std::size_t al, std::size_t n) { if (!sys::armed) return sys::__real_posix_memalign(r, al, n); if (sys::fails('m')) return ENOMEM; *r = sys::get(n, al, 'm'); return *r ? 0 : ENOMEM; }
void * __wrap_aligned_alloc(std::size_t al, std::size_t n) { void * p = 0; return __wrap_posix_memalign(&p, al, n) ? 0 : p; }
void __wrap_free(void * p) {
    if (!p) return;
    if (sys::put(p, 'm')) return;
    if (sys::armed) { sys::note("free() of something that is not (or no longer) allocated"); return; }
    sys::__real_free(p);
}
void * __wrap_mmap(void * a, std::size_t n, int prot, int flags, int fd, off_t o) {
    if (!sys::armed) return sys::__real_mmap(a, n, prot, flags, fd, o);
    if (sys::fails('m')) { errno = ENOMEM; return MAP_FAILED; }
    if (flags & MAP_FIXED) return sys::__real_mmap(a, sys::up(n, sys::page), prot, flags, fd, o);
    if (!n) { errno = EINVAL; return MAP_FAILED; }
    if (n > (std::size_t(1) << 28)) { errno = ENOMEM; return MAP_FAILED; }
    std::size_t P = sys::page, len = sys::up(n, P), raw = len + 3 * P;
    char * b = (char *)sys::__real_mmap(0, raw, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) return MAP_FAILED;
    char * p = (char *)sys::up((std::size_t)b + P, P);
    memset(p - P, sys::CAN, P); memset(p + len, sys::CAN, P);
    if (!(prot & PROT_WRITE)) sys::__real_mprotect(p, len, prot);
    sys::live()[p] = sys::Blk{n, 'p', b, raw}; ++sys::nalloc;
    return p;
}
void * __wrap_mmap64(void * a, std::size_t n, int prot, int flags, int fd, off_t o) { return __wrap_mmap(a, n, prot, flags, fd, o); }
int __wrap_munmap(void * a, std::size_t n) {
#ifdef SHADOW_STACK_SYSCALL
    if (shstk_owns(a)) return sys::__real_munmap(a, n);
#endif
    auto it = sys::live().find((char *)a);
    if (it == sys::live().end() || it->second.kind != 'p') { if (!sys::armed) return sys::__real_munmap(a, n); sys::note("munmap() of something that is not a mapping of the library"); return 0; }
    if (sys::up(n, sys::page) != sys::up(it->second.len, sys::page)) sys::note("munmap() of %lu bytes of a mapping of %lu bytes", n, it->second.len);
    sys::__real_mprotect((char *)it->second.base, it->second.raw, PROT_READ | PROT_WRITE);
    if (!sys::canaries(*it)) sys::note("memory next to a mapping of %lu bytes was overwritten", it->second.len);
    sys::__real_munmap(it->second.base, it->second.raw); sys::live().erase(it); ++sys::nfree;
    return 0;
}
int __wrap_mprotect(void * a, std::size_t n, int prot) {
    if (!sys::armed) return sys::__real_mprotect(a, n, prot);
    if (sys::fails('g')) { errno = ENOMEM; return -1; }
    if ((std::size_t)a % sys::page) { errno = EINVAL; return -1; }
    n = sys::up(n, sys::page);
    auto it = sys::live().upper_bound((char *)a);
    if (it == sys::live().begin()) { sys::note("mprotect() outside the mappings of the library"); return -1; }
    --it;
    if (it->second.kind != 'p' || (char *)a + n > it->first + sys::up(it->second.len, sys::page)) { sys::note("mprotect() reaches outside the mapping"); errno = ENOMEM; return -1; }
    return sys::__real_mprotect(a, n, prot);
}
int __wrap_getcontext(ucontext_t * u) { if (sys::armed && sys::fails('c')) { errno = ENOSYS; return -1; } return sys::__real_getcontext(u); }
}
#ifndef SYS_NO_NEW
void * operator new(std::size_t n) { if (!sys::armed) { void * p = sys::__real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; } if (sys::fails('m')) throw std::bad_alloc(); void * p = sys::get(n, 16, 'n'); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void * p) noexcept { if (!p || sys::put(p, 'n')) return; sys::__real_free(p); }
void operator delete(void * p, std::size_t) noexcept { ::operator delete(p); }
void * operator new[](std::size_t n) { return ::operator new(n); }
void operator delete[](void * p) noexcept { ::operator delete(p); }
void operator delete[](void * p, std::size_t) noexcept { ::operator delete(p); }
void * operator new(std::size_t n, std::nothrow_t const &) noexcept { try { return ::operator new(n); } catch (...) { return 0; } }
#endif
