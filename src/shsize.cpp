// Builds for shadow stacks: contexts on stacks of every size class and every residue of both ends, in each form of
// creation and with each ending; shstk.cpp checks how the shadow stacks are used. API 0 fiber 1 call/cc
#if API
# include <boost/context/continuation.hpp>
typedef boost::context::continuation H;
#else
# include <boost/context/fiber.hpp>
typedef boost::context::fiber H;
#endif
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <string>
#include <vector>
namespace shstk { extern long live; extern std::size_t last; }
namespace ctx = boost::context;
static long stacks = 0, evals = 0; static std::string msg;
struct Al { char * base; std::size_t size; ctx::stack_context allocate() { ctx::stack_context c; c.size = size; c.sp = base + size; ++stacks; return c; } void deallocate(ctx::stack_context &) { --stacks; } };
static bool one(char * base, std::size_t size, int form, int ending) {
    int ran = 0, dead = 0; struct D { int * d; ~D() { ++*d; } };
    auto body = [&](H && h) { D g{&dead}; H r = std::move(h); ++ran; r = std::move(r).resume(); ++ran; return r; };
    Al al{base, size}; ctx::stack_context sc = al.allocate(); ctx::preallocated pa(sc.sp, sc.size, sc); if (!form) --stacks;
    long s0 = stacks, l0 = shstk::live; (void)s0;
    try {
        std::size_t given = size;
#if API
        H c = form ? ctx::callcc(std::allocator_arg, pa, al, body) : ctx::callcc(std::allocator_arg, al, body);
#else
        H c = form ? H(std::allocator_arg, pa, al, body) : H(std::allocator_arg, al, body);
        if (shstk::live != l0 + 1) { msg = "a new context has " + std::to_string(shstk::live - l0) + " shadow stacks"; return false; }
        if (ending < 2) c = std::move(c).resume();
#endif
        if (shstk::live != l0 + 1) { msg = "a suspended context has " + std::to_string(shstk::live - l0) + " shadow stacks"; return false; }
        if (ending == 0) { c = std::move(c).resume(); if (c || ran != 2) { msg = "the context did not finish"; return false; } }
        if (shstk::last < 4096 || shstk::last * 32 + 32768 < given) { msg = "a shadow stack of " + std::to_string(shstk::last) + " bytes is too small"; return false; }
    } catch (std::exception const & e) { msg = std::string("creation failed: ") + e.what(); return false; }
    ++evals;
    if (shstk::live != l0 || stacks != 0) { msg = "not released: " + std::to_string(shstk::live - l0) + " shadow stacks, " + std::to_string(stacks) + " stacks"; return false; }
    if (dead != (API || ending < 2)) { msg = "the context was not unwound exactly once"; return false; }
    return true;
}
int main() {
    std::vector<char> mem((1 << 20) + 8192 + 64); char * m = (char *)(((std::size_t)mem.data() + 4095) & ~(std::size_t)4095);
    std::size_t const sizes[] = {16384, 65536, 131072, 131072 + 4096, 135168 + 512, 200000, 262144, 1 << 20};
    for (std::size_t s : sizes) for (long d = -640; d <= 640; d += 64) for (int lo = 0; lo < 16; ++lo) for (int hi = 0; hi < 16; hi += lo % 3 + 1) for (int form = 0; form < 2; ++form) for (int e = 0; e < 3; ++e) {
        if (s == (1 << 20) && d > 0) continue;
        if ((d % 128 || hi % 2) && (s < 131072 || s > 140000)) continue;
        if (!one(m + lo, s + d - lo + hi - (s == (1 << 20) ? 16 : 0), form, e)) { printf("{\"violation\":{\"message\":\"%s (stack of %ld bytes, lower end at residue %d, form %d, ending %d)\"}}\n", msg.c_str(), (long)(s + d - lo + hi), lo, form, e); return 1; }
    }
    printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"samples\":[\"stack sizes around each boundary x residues of both ends x 2 forms x 3 endings\"]}\n", evals, evals);
    return 0;
}
