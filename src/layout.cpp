// Exhaustive enumeration of layouts: callable sizes/alignments x allocator sizes/alignments x stack sizes x placements of
// the region (every residue of its upper end modulo 256) x creation form x way of ending, on the real library.
//   layout  [quick|full]
//   layout  one <type> <form> <ending> <offset> <size> <used>
#if API
# include <boost/context/continuation.hpp>
namespace ctx = boost::context;
typedef ctx::continuation H;
template <class A, class F> H make(A && a, F && f) { return ctx::callcc(std::allocator_arg, std::forward<A>(a), std::forward<F>(f)); }
template <class A, class F> H make(ctx::preallocated p, A && a, F && f) { return ctx::callcc(std::allocator_arg, p, std::forward<A>(a), std::forward<F>(f)); }
#else
# include <boost/context/fiber.hpp>
namespace ctx = boost::context;
typedef ctx::fiber H;
template <class A, class F> H make(A && a, F && f) { return H{std::allocator_arg, std::forward<A>(a), std::forward<F>(f)}; }
template <class A, class F> H make(ctx::preallocated p, A && a, F && f) { return H{std::allocator_arg, p, std::forward<A>(a), std::forward<F>(f)}; }
#endif
#include <boost/context/preallocated.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
typedef unsigned char byte;
static std::size_t const BAND = 4096, MAXREG = 160 * 1024;
static byte * arena; static byte * reg_lo, * reg_hi, * top;      // the region handed out; top: where the context may begin
static byte * reference;                                          // what the bands contained
static std::size_t arena_len;
static std::string bad; static char where[200];
static long nstates, nops;           // checked states, operations on contexts
static void fail(char const * f, long a = 0, long b = 0) { if (bad.empty()) { char t[300]; snprintf(t, sizeof t, f, a, b); bad = t; } }
static void on_fault(int s) { dprintf(1, "\n{\"violation\":{\"message\":\"signal %d (access outside the region) at %s\"}}\n", s, where); _exit(1); }
static byte pat(std::size_t i) { return byte(i * 7 + (i >> 8) * 31 + 3); }
static void check_bands(char const * when) {
    ++nstates; ++nops;
    std::size_t lo = reg_lo - arena - BAND, hi = top - arena, end = reg_hi - arena + BAND;
    if (memcmp(arena + lo, reference + lo, BAND)) { for (std::size_t i = 0; i < BAND; ++i) if (arena[lo + i] != reference[lo + i]) { char t[200]; snprintf(t, sizeof t, "memory %ld bytes below the stack region was written (%s)", (long)(BAND - i), when); fail(t); break; } }
    if (memcmp(arena + hi, reference + hi, end - hi)) { for (std::size_t i = hi; i < end; ++i) if (arena[i] != reference[i]) { char t[200]; snprintf(t, sizeof t, "memory %ld bytes above the given top was written (%s)", (long)(i - hi), when); fail(t); break; } }
}
struct Span { byte * p; std::size_t n; };
static Span fn_in, al_in;           // the instances living inside the region
static bool in_reg(void const * p) { return (byte *)p >= reg_lo && (byte *)p < reg_hi; }
static long fn_live, al_live, calls, deallocs, allocs;
static bool deep_fill;
#define NOINL __attribute__((noinline, noclone))
// everything between the bottom of the region and the running frame belongs to the context
static std::size_t slack;            // what the callee keeps on the stack by itself
static NOINL void use_stack() {
#ifdef BOOST_USE_WINFIB
    return;                          // runs on the stack of the operating system's fiber
#endif
    byte volatile here = 0; byte * sp = (byte *)&here;
    if (!in_reg(sp)) { fail("the context does not run inside its region"); return; }
    byte * lim = sp - 1024;
    if (fn_in.p && sp >= fn_in.p && sp < fn_in.p + fn_in.n) fail("the running stack overlaps the function object");
    if (al_in.p && sp >= al_in.p && sp < al_in.p + al_in.n) fail("the running stack overlaps the stored allocator");
    byte * low = fn_in.p; if (al_in.p && al_in.p < low) low = al_in.p;
    if (low && sp >= low) fail("the running stack lies above the stored objects");
    if (low && low - sp > 8192 + (long)slack) fail("%ld bytes between the stored objects and the running stack can not be used", (long)(low - sp));
    if (deep_fill && lim > reg_lo) for (byte volatile * q = reg_lo; q < lim; ++q) *q = 0xA5;
}
template <std::size_t A> static NOINL void aligned_local() {
    alignas(A) byte volatile d[A]; d[0] = 1; byte volatile * p = d; asm volatile("" : "+r"(p));
    if ((std::size_t)p % A) fail("a local variable with %ld-byte alignment is misaligned", (long)A);
#ifndef BOOST_USE_WINFIB
    if (!in_reg((void *)p)) fail("a local variable lies outside the region");
#endif
}
static NOINL void body_checks() { aligned_local<16>(); aligned_local<32>(); aligned_local<64>(); use_stack(); }
template <std::size_t S, std::size_t A> struct alignas(A) Blob {
    byte d[S];
    Blob() { for (std::size_t i = 0; i < S; ++i) d[i] = byte(pat(i) ^ S ^ A); }
    Blob(Blob const & o) { copy(o); }
    void copy(Blob const & o) { for (std::size_t i = 0; i < S; ++i) { d[i] = o.d[i]; } }
    bool ok() const { for (std::size_t i = 0; i < S; ++i) if (d[i] != byte(pat(i) ^ S ^ A)) return false; return true; }
};
static void placed(Span & s, void * p, std::size_t n, std::size_t al, char const * what) {
    byte * q = (byte *)p; asm volatile("" : "+r"(q));
    if ((std::size_t)q % al) { char t[100]; snprintf(t, sizeof t, "the %s is not aligned to %%ld bytes", what); fail(t, (long)al); }
    if (!in_reg(q)) return;
    if (q + n > top) { char t[100]; snprintf(t, sizeof t, "the %s reaches %%ld bytes above the given top", what); fail(t, (long)(q + n - top)); }
    if (!s.p) { s.p = q; s.n = n; }
}
static bool overlap(Span a, Span b) { return a.p && b.p && a.p < b.p + b.n && b.p < a.p + a.n; }
static bool stored_phase;           // instances created now inside the region are the stored ones
template <std::size_t S, std::size_t A> struct Alloc {
    Blob<S, A> b;
    Alloc() { ++al_live; }
    Alloc(Alloc const & o) : b(o.b) { ++al_live; if (stored_phase && in_reg(this)) placed(al_in, this, sizeof(*this), alignof(Alloc), "allocator"); }
    Alloc(Alloc && o) : b(o.b) { ++al_live; if (stored_phase && in_reg(this)) placed(al_in, this, sizeof(*this), alignof(Alloc), "allocator"); }
    ~Alloc() { --al_live; if (!b.ok()) fail("the stored allocator was overwritten"); }
    ctx::stack_context allocate() { ++allocs; ctx::stack_context s; s.sp = reg_hi; s.size = reg_hi - reg_lo; return s; }
    void deallocate(ctx::stack_context & s) { ++deallocs; if (!b.ok()) fail("the stored allocator was overwritten"); if (s.sp != reg_hi || s.size != (std::size_t)(reg_hi - reg_lo)) fail("a different stack is given back than was obtained"); if (in_reg(this)) fail("the allocator that frees the stack lives on it"); }
};
template <std::size_t S, std::size_t A> struct Fn {
    Blob<S, A> b;
    Fn() { ++fn_live; }
    Fn(Fn const & o) : b(o.b) { ++fn_live; put(); }
    Fn(Fn && o) : b(o.b) { ++fn_live; put(); }
    void put() { if (stored_phase && in_reg(this)) placed(fn_in, this, sizeof(*this), alignof(Fn), "function object"); }
    ~Fn() { --fn_live; if (!b.ok()) fail("the function object was overwritten"); }
    H operator()(H && m) {
        stored_phase = false; ++nstates;
        ++calls;
        byte * self = (byte *)this; asm volatile("" : "+r"(self));
        if (!in_reg(self)) fail("the stored function object is not inside the region");
        if ((std::size_t)self % alignof(Fn)) fail("the function object runs misaligned (%ld)", (long)A);
        if (fn_in.p && self != fn_in.p) fail("another object than the stored one runs");
        if (!b.ok()) fail("the function object was overwritten");
        body_checks();
        m = std::move(m).resume(); ++nstates; ++nops;
        body_checks();
        if (!b.ok()) fail("the function object was overwritten");
        return std::move(m);
    }
};
template <std::size_t S, std::size_t A> struct Top {       // a function run on top of the context
    Blob<S, A> b;
    H operator()(H && m) {
        byte * self = (byte *)this; asm volatile("" : "+r"(self));
        if ((std::size_t)self % alignof(Top)) fail("the function on top runs misaligned");
        if (!b.ok()) fail("the function on top was damaged");
        slack = 4 * sizeof(Top) + 4 * A; body_checks(); slack = 0;
        return std::move(m);
    }
};
enum { FINISH, DESTROY, BEFORE, ONTOP, NEND };
struct Case { int type, form, end; std::size_t off, size, used; };
static std::size_t need_run, need_unwind;
template <class A, class F, class T> static void run_case(Case const & c) {
    reg_hi = (byte *)((std::size_t)(arena + BAND + MAXREG + 4096) / 4096 * 4096 + c.off);
    reg_lo = reg_hi - c.size; top = reg_hi - (c.form ? c.used : 0);
    memcpy(reg_lo, reference + (reg_lo - arena), reg_hi - reg_lo);
    fn_in = al_in = Span{0, 0}; fn_live = al_live = calls = deallocs = allocs = 0;
    {
        A al; F fn;
        stored_phase = true;
        H m;
        if (c.form == 0) m = make(al, fn);
        else { ctx::stack_context s; s.sp = reg_hi; s.size = reg_hi - reg_lo; m = make(ctx::preallocated(top, top - reg_lo, s), al, fn); }
        stored_phase = false;
        check_bands("creation");
        if (!fn_in.p) fail("the function object is not stored in the region");
        if (!al_in.p) fail("the allocator is not stored in the region");
        if (overlap(fn_in, al_in)) fail("the stored function object and allocator overlap");
        if (fn_in.p && (fn_in.p < reg_lo)) fail("the function object reaches below the region");
        bool started = API;
        if (!started && c.end != BEFORE) { m = std::move(m).resume(); check_bands("first resume"); started = true; }
        if (c.end == ONTOP) { T t; m = std::move(m).resume_with(t); check_bands("function on top"); }
        else if (c.end == FINISH) { m = std::move(m).resume(); check_bands("end"); }
        else { m = H(); check_bands("destruction"); }
        if (m) fail("the context did not end");
        m = H();
        if (calls != (started ? 1 : 0)) fail("the function ran %ld times", calls);
        if (allocs != (c.form ? 0 : 1)) fail("%ld stacks were allocated", allocs);
        if (deallocs != 1) fail("the stack was given back %ld times", deallocs);
        if (fn_live != 1 || al_live != 1) fail("%ld function objects and %ld allocators are left", fn_live - 1, al_live - 1);
    }
    memcpy(reg_lo, reference + (reg_lo - arena), reg_hi - reg_lo);
}
struct Entry { void (*f)(Case const &); std::size_t rec; char name[64]; };
static std::vector<Entry> & types() { static std::vector<Entry> v; return v; }
template <std::size_t FS, std::size_t FA, std::size_t AS, std::size_t AA> static void add() {
    Entry e; 
    // before C++17 the language has no over-aligned dynamic memory, which std::function (ucontext) uses
#if __cplusplus < 201703L && (defined(BOOST_USE_UCONTEXT) || defined(BOOST_USE_WINFIB))
    std::size_t const TA = FA > 16 ? 16 : FA;
#else
    std::size_t const TA = FA;
#endif
    e.f = &run_case<Alloc<AS, AA>, Fn<FS, FA>, Top<FS, TA> >;
    e.rec = sizeof(Fn<FS, FA>) + sizeof(Alloc<AS, AA>) + FA + AA + 1600;
    snprintf(e.name, sizeof e.name, "fn %lu/%lu alloc %lu/%lu", (unsigned long)FS, (unsigned long)FA, (unsigned long)AS, (unsigned long)AA);
    types().push_back(e);
}
template <std::size_t FA, std::size_t AS, std::size_t AA> static void sizes() {
    add<FA, FA, AS, AA>(); add<FA * 3, FA, AS, AA>();
#if PART > 0
    add<FA * 2, FA, AS, AA>(); add<FA * 5, FA, AS, AA>(); add<FA * 7, FA, AS, AA>();
#endif
}
template <std::size_t AS, std::size_t AA> static void aligns() {
    sizes<1, AS, AA>(); sizes<4, AS, AA>(); sizes<8, AS, AA>(); sizes<16, AS, AA>(); sizes<32, AS, AA>(); sizes<64, AS, AA>(); sizes<128, AS, AA>(); sizes<256, AS, AA>();
    add<201, 1, AS, AA>(); add<1000, 8, AS, AA>(); add<2048, 64, AS, AA>(); add<10000, 16, AS, AA>();
}
static long done_cases;
static bool one(Case const & c) {
    snprintf(where, sizeof where, "%d %d %d %lu %lu %lu (%s)", c.type, c.form, c.end, (unsigned long)c.off, (unsigned long)c.size, (unsigned long)c.used, types()[c.type].name);
    types()[c.type].f(c); ++done_cases;
    if (bad.empty()) return true;
    static char const * fn[] = {"allocated", "preallocated"}, * en[] = {"finished", "destroyed", "destroyed before start", "function on top"};
    printf("\n{\"violation\":{\"message\":\"%s: %s, %s, %s, upper end at +%lu, %lu bytes, %lu bytes used\",\"replay\":[\"one\",\"%d\",\"%d\",\"%d\",\"%lu\",\"%lu\",\"%lu\"]}}\n", bad.c_str(), types()[c.type].name, fn[c.form], en[c.end], (unsigned long)c.off, (unsigned long)c.size, (unsigned long)c.used,
        c.type, c.form, c.end, (unsigned long)c.off, (unsigned long)c.size, (unsigned long)c.used);
    return false;
}
int main(int argc, char ** argv) {
    aligns<1, 1>(); aligns<24, 8>();
#if PART > 0
    aligns<64, 64>(); aligns<512, 256>();
#endif
    arena_len = BAND * 4 + MAXREG + 3 * 65536;
    arena = (byte *)mmap(0, arena_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); reference = (byte *)malloc(arena_len);
    for (std::size_t i = 0; i < arena_len; ++i) arena[i] = reference[i] = pat(i);
    static byte alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_fault; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGABRT, &sa, 0);
    std::string mode = argc > 1 ? argv[1] : "quick"; bool full = mode == "full";
    if (mode == "one") { Case c = {atoi(argv[2]), atoi(argv[3]), atoi(argv[4]), (std::size_t)atol(argv[5]), (std::size_t)atol(argv[6]), (std::size_t)atol(argv[7])}; deep_fill = true; { Case w = c; w.end = DESTROY; w.size = 128 * 1024; types()[c.type].f(w); bad.clear(); } if (!one(c)) return 1; printf("{\"evaluations\":1}\n"); return 0; }
    std::size_t const used[] = {0, 1, 8, 15, 16, 64, 100, 255, 256, 1000};
    need_run = 3 * 1024; need_unwind = 24 * 1024;
    Case w = {0, 0, DESTROY, 0, 128 * 1024, 0}; types()[0].f(w); bad.clear();      // lazy initialisations of the run-time system
    for (int t = 0; t < (int)types().size(); ++t) for (int form = 0; form < 2; ++form) for (int end = 0; end < NEND; ++end) if (!(API && end == BEFORE)) for (std::size_t off = 0; off < 256; ++off) {
        std::size_t base = types()[t].rec + 512 + (end == FINISH ? need_run : end == ONTOP ? need_run + 4 * types()[t].rec : need_unwind);
        std::size_t const deltas[] = {0, 1, 255, 4096 + 40}; int nd = full ? 4 : 1;
        for (int d = 0; d < nd; ++d) {
            int nu = form ? 10 : 1;
            for (int u = 0; u < nu; ++u) {
                // every residue with every amount already used would repeat the same layout: all residues with three of
                // them, the other amounts with the residues next to the rounding steps
                if (form && !full && u != 0 && u != 3 && u != 9 && !(off < 2 || off > 253 || off == 16 || off == 128)) continue;
                deep_fill = (off % 16 == 0) || full;
                Case c = {t, form, end, off, base + used[form ? u : 0] + deltas[d], form ? used[u] : 0};
                if (!one(c)) return 1;
            }
        }
    }
    printf("{\"evaluations\":%ld,\"states\":%ld,\"transitions\":%ld,\"traces_validated_against_impl\":%ld,\"types\":%lu,\"samples\":[\"last: %s\"]}\n", done_cases, nstates, nops, done_cases, (unsigned long)types().size(), where);
    return 0;
}
