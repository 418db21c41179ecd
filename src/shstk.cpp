// A stand-in for the shadow stack interface of the kernel (builds with -fcf-protection and SHADOW_STACK_SYSCALL; the
// switching code itself is the ordinary one, because this processor has no shadow stacks: see ports.py x86_64-cet).
// map_shadow_stack() answers as Linux does; every shadow stack must be handed to make_fcontext() with an intact token at
// its end, be released exactly once with its own size, and never while the context that owns it is running.
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <sys/mman.h>
#include <sys/syscall.h>
namespace shstk {
long live = 0, made = 0; std::size_t last = 0;
struct S { std::uintptr_t base; std::size_t len, asked; std::uintptr_t lo, hi; };
static S tab[4096];
static std::mutex mx;
static long raw(long n, long a, long b, long c, long d = 0, long e = 0, long f = 0) {
    long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
[[noreturn]] static void die(char const * m) { fprintf(stderr, "wrong use of shadow stacks: %s\n", m); fflush(stderr); abort(); }
}
using namespace shstk;
extern "C" bool shstk_map_fails() __attribute__((weak));
extern "C" bool shstk_owns(void * a) { for (auto & s : tab) if (s.base == (std::uintptr_t)a && a) return true; return false; }
extern "C" long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a[6]; for (long & x : a) x = va_arg(ap, long); va_end(ap);
    if (n != 453) return ret(raw(n, a[0], a[1], a[2], a[3], a[4], a[5]));
    std::size_t size = (std::size_t)a[1]; unsigned flags = (unsigned)a[2];
    if (shstk_map_fails && shstk_map_fails()) { errno = ENOMEM; return -1; }
    if (flags & ~1u) { errno = EINVAL; return -1; }
    if ((flags & 1) && size < 8) { errno = ENOSPC; return -1; }
    if (a[0]) die("an address was asked for");
    std::size_t len = (size + 4095) & ~(std::size_t)4095;
    if (len < size) { errno = EOVERFLOW; return -1; }
    long p = raw(SYS_mmap, 0, (long)len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p < 0 && p > -4096) { errno = ENOMEM; return -1; }
    if (flags & 1) {
        if (size % 8) { raw(SYS_munmap, p, (long)len, 0); errno = EINVAL; return -1; }
        *(std::uintptr_t *)(p + (long)size - 8) = (std::uintptr_t)p + size + 1;
    }
    raw(SYS_mprotect, p, (long)len, PROT_READ);
    std::lock_guard<std::mutex> l(mx);
    for (auto & s : tab) if (!s.base) { s = S{(std::uintptr_t)p, len, size, 0, 0}; ++live; ++made; last = size; return p; }
    die("more than 4096 at the same time");
}
extern "C" void * __real_make_fcontext(void * sp, std::size_t size, void (*fn)(void *, void *));
extern "C" void * __wrap_make_fcontext(void * sp, std::size_t size, void (*fn)(void *, void *)) {
    std::uintptr_t top = ((std::uintptr_t *)sp)[-1];
    bool ok = false;
    { std::lock_guard<std::mutex> l(mx);
      for (auto & s : tab) if (s.base && s.base + s.asked == top) {
          if (((std::uintptr_t *)top)[-1] != top + 1) die("the token at the end of the shadow stack is not intact");
          if (s.hi) die("the same shadow stack was given to two contexts");
          s.hi = (std::uintptr_t)sp; s.lo = s.hi - size; ok = true;
      } }
    if (!ok) die("a context was made without a shadow stack of its own");
    return __real_make_fcontext(sp, size, fn);
}
extern "C" int munmap(void * a, std::size_t n) noexcept {
    std::uintptr_t here = (std::uintptr_t)__builtin_frame_address(0);
    { std::lock_guard<std::mutex> l(mx);
      for (auto & s : tab) if (s.base && (std::uintptr_t)a < s.base + s.len && s.base < (std::uintptr_t)a + n) {
          if (s.base != (std::uintptr_t)a || (n + 4095) / 4096 * 4096 != s.len) die("a shadow stack was released with a wrong address or size");
          if (s.lo <= here && here < s.hi) die("a running context released its own shadow stack");
          s = S(); --live; break;
      } }
    return (int)ret(raw(SYS_munmap, (long)a, (long)n, 0));
}
