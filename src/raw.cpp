// Explorer of the raw switching primitives (make_fcontext, jump_fcontext, ontop_fcontext) on x86_64.
// A model of who is suspended where is searched breadth first to a fixpoint; every transition is executed on the
// real primitives with distinguishable machine state, and everything observable is compared with the model.
//   raw graph -N contexts -P profiles -F frames     raw dfs -len L ...     raw enum     raw path "M1.0.1 J1.0 ..."
#include <boost/context/detail/fcontext.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csetjmp>
#include <map>
#include <string>
#include <vector>
#include <deque>
#include <unordered_map>
#include <csignal>
#include <ctime>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#ifndef FP
# ifdef BOOST_USE_TSX
#  define FP 0
# else
#  define FP 1
# endif
#endif
#ifdef BOOST_CONTEXT_TLS_STACK_PROTECTOR
# define GUARD 1
#else
# define GUARD 0
#endif
namespace ctx = boost::context::detail;
#ifdef API
# if API
#  include <boost/context/continuation.hpp>
typedef boost::context::continuation H;
# else
#  include <boost/context/fiber.hpp>
typedef boost::context::fiber H;
# endif
# include <boost/context/preallocated.hpp>
# include <new>
#endif
#ifdef API
# define ISAPI 1
#else
# define ISAPI 0
#endif
typedef uint64_t u64; typedef uint32_t u32;
struct In { u64 r[6]; u32 mx, cw; u64 guard, a0, a1, a2, fn; };          // rbx rbp r12 r13 r14 r15
struct Out { u64 r[6]; u32 mx, cw; u64 guard, rax, rdx, can[4]; };
extern "C" {
void raw_tramp(In const *, Out *);
void raw_entry_stub(); void raw_ontop_stub();
u64 ent_rsp; u32 ent_mx, ent_cw; u64 ent_guard, dflt_guard; u32 dflt_mx = 0x1f80, dflt_cw = 0x37f;
void entry_c(void * f, void * d);
ctx::transfer_t ontop_c(void * f, void * d);
}
asm(R"(
.text
.globl raw_tramp
.type raw_tramp,@function
raw_tramp:
  push %rbx
  push %rbp
  push %r12
  push %r13
  push %r14
  push %r15
  push %rsi
  push %rdi
  sub $8,%rsp
  movabs $0x1122334455667788,%rax
  push %rax
  push %rax
  push %rax
  push %rax
  mov %rdi,%rax
  mov 0x00(%rax),%rbx
  mov 0x08(%rax),%rbp
  mov 0x10(%rax),%r12
  mov 0x18(%rax),%r13
  mov 0x20(%rax),%r14
  mov 0x28(%rax),%r15
  mov 0x40(%rax),%rdi
  mov 0x48(%rax),%rsi
  mov 0x50(%rax),%rdx
)"
#if FP
"  fnclex\n  ldmxcsr 0x30(%rax)\n  fldcw 0x34(%rax)\n"
#endif
#if GUARD
"  mov 0x38(%rax),%rcx\n  mov %rcx,%fs:0x28\n"
#endif
R"(
  mov 0x58(%rax),%rax
  call *%rax
  mov 0x30(%rsp),%rcx
  mov %rbx,0x00(%rcx)
  mov %rbp,0x08(%rcx)
  mov %r12,0x10(%rcx)
  mov %r13,0x18(%rcx)
  mov %r14,0x20(%rcx)
  mov %r15,0x28(%rcx)
  stmxcsr 0x30(%rcx)
  fnstcw 0x34(%rcx)
  mov %rax,0x40(%rcx)
  mov %rdx,0x48(%rcx)
  mov %fs:0x28,%rdx
  mov %rdx,0x38(%rcx)
)"
#if GUARD
"  mov dflt_guard(%rip),%rdx\n  mov %rdx,%fs:0x28\n"
#endif
R"(
  fnclex
  ldmxcsr dflt_mx(%rip)
  fldcw dflt_cw(%rip)
  pop %rax
  mov %rax,0x50(%rcx)
  pop %rax
  mov %rax,0x58(%rcx)
  pop %rax
  mov %rax,0x60(%rcx)
  pop %rax
  mov %rax,0x68(%rcx)
  add $8,%rsp
  pop %rdi
  pop %rsi
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbp
  pop %rbx
  ret

.macro note
  mov %rsp,ent_rsp(%rip)
  stmxcsr ent_mx(%rip)
  fnstcw ent_cw(%rip)
  mov %fs:0x28,%rax
  mov %rax,ent_guard(%rip)
  ldmxcsr dflt_mx(%rip)
  fnclex
  fldcw dflt_cw(%rip)
)"
#if GUARD
"  mov dflt_guard(%rip),%rax\n  mov %rax,%fs:0x28\n"
#endif
R"(
.endm
.globl raw_entry_stub
.type raw_entry_stub,@function
raw_entry_stub:
  endbr64
  note
  jmp entry_c
.globl raw_ontop_stub
.type raw_ontop_stub,@function
raw_ontop_stub:
  endbr64
  note
  mov ent_mx(%rip),%eax
  mov ent_cw(%rip),%ecx
  push ent_guard(%rip)
  push %rax
  push %rcx
  call ontop_c
  fnclex
  fldcw (%rsp)
  ldmxcsr 8(%rsp)
)"
#if GUARD
"  mov 16(%rsp),%rcx\n  mov %rcx,%fs:0x28\n"
#endif
R"(
  add $24,%rsp
  ret
)");

// ------------------------------------------------------------ machine-state profiles
static const int MAXN = 5;
static u32 const MXS[4] = { 0x1f80, 0x3f80, 0xdf40, 0x6000 | 0x1e80 };   // round down; up+FZ+DAZ; chop, one mask open
static u32 const CWS[4] = { 0x037f, 0x077f, 0x0a5f, 0x0c3e };
static u64 const DATA[5] = { 0, ~u64(0), 0x8000000000000001ull, 0x00000000fffffffeull, 0x7f0123456789abcdull };
static u64 reg_pattern(int who, int prof, int depth, int k) {
    u64 v = 0x9e3779b97f4a7c15ull * (u64)(1 + k + 8 * (prof + 5 * (who + 7 * depth)));
    return v ^ (v >> 29) ^ ((u64)(k + 1) << 60);
}
static u64 guard_pattern(int who, int prof) { return 0xABCD000000000000ull | (u64)(who * 16 + prof) << 8; }

// ------------------------------------------------------------ model
struct Op { char c; int x, k, p; };      // M x k p : make x with top offset k while running profile p; J x p; O x p; R z (return handle z from function); E = entry returns
struct Ctx { char st; int prof; int made; std::vector<int> fr; };   // fr: profiles of suspended frames (bottom to top); nfn: function frames
struct Model {
    int n, cur; char st[MAXN]; int made[MAXN]; std::vector<int> fr[MAXN]; int nfn[MAXN];
    std::string key() const {
        std::string s(1, (char)('0' + cur));
        for (int i = 0; i < n; ++i) { s += st[i]; s += (char)('0' + made[i]); s += (char)('0' + nfn[i]); for (int p : fr[i]) s += (char)('a' + p); s += '|'; }
        return s;
    }
};
static int N = 3, P = 2, F = 1, LEN = 6; static int const KK = ISAPI ? 1 : 3; static int const OFFS[3] = { 0, 8, 23 };
static Model init_model() { Model m; m.n = N; m.cur = 0; for (int i = 0; i < MAXN; ++i) { m.st[i] = i ? '-' : 'r'; m.made[i] = 0; m.nfn[i] = 0; } return m; }
static std::vector<Op> enabled(Model const & m, bool end) {
    std::vector<Op> v;
    for (int x = 1; x < N; ++x) if (m.st[x] == '-') { for (int k = 0; k < KK; ++k) for (int p = 0; p < P; ++p) v.push_back(Op{'M', x, k, p}); break; }
    for (int x = 0; x < N; ++x) if (m.st[x] == 'n' || m.st[x] == 's') for (int p = 0; p < P; ++p) v.push_back(Op{'J', x, 0, p});
    for (int x = 0; x < N; ++x) if (m.st[x] == 's' && m.nfn[x] < F) for (int p = 0; p < P; ++p) v.push_back(Op{'O', x, 0, p});
    if (m.nfn[m.cur]) for (int z = 0; z < N; ++z) if (m.st[z] == 's') v.push_back(Op{'R', z, 0, 0});
    if (end && m.cur && !m.nfn[m.cur]) v.push_back(Op{'E', 0, 0, 0});
    return v;
}
// function frames are not remembered with their position: the profile list has one entry per pending jump of a context
static void apply(Model & m, Op const & o) {
    switch (o.c) {
    case 'M': m.st[o.x] = 'n'; m.made[o.x] = o.p; break;
    case 'J': case 'O':
        m.fr[m.cur].push_back(o.p); m.st[m.cur] = 's';
        if (o.c == 'J') { if (m.st[o.x] == 's') m.fr[o.x].pop_back(); m.st[o.x] = 'r'; m.made[o.x] = 0; }
        else { m.nfn[o.x]++; m.st[o.x] = 'r'; }
        m.cur = o.x; break;
    case 'R': m.nfn[m.cur]--; m.fr[m.cur].pop_back(); break;
    }
}
static std::string show(Op const & o) {
    char b[32];
    if (o.c == 'M') snprintf(b, sizeof b, "M%d.%d.%d", o.x, o.k, o.p);
    else if (o.c == 'R') snprintf(b, sizeof b, "R%d", o.x);
    else if (o.c == 'E') snprintf(b, sizeof b, "E");
    else snprintf(b, sizeof b, "%c%d.%d", o.c, o.x, o.p);
    return b;
}
static std::string show(std::vector<Op> const & v) { std::string s; for (auto & o : v) { if (!s.empty()) s += ' '; s += show(o); } return s; }
static std::vector<Op> parse(char const * s) {
    std::vector<Op> v;
    while (*s) {
        while (*s == ' ') ++s; if (!*s) break;
        Op o{*s++, 0, 0, 0}; char * e;
        if (o.c != 'E') { o.x = strtol(s, &e, 10); s = e; }
        if (*s == '.') { int a = strtol(s + 1, &e, 10); s = e; if (o.c == 'M' && *s == '.') { o.k = a; o.p = strtol(s + 1, &e, 10); s = e; } else o.p = a; }
        v.push_back(o);
    }
    return v;
}

// ------------------------------------------------------------ execution
static size_t const STK = 16384, BAND = 4096;
static unsigned char * area;    // N regions: band, stack, band
static unsigned char * bot(int x) { return area + x * (STK + 2 * BAND) + BAND; }
static unsigned char * top(int x, int off) { return bot(x) + STK - off; }
struct Shared { volatile long idx, done; volatile int bad; char msg[600]; };
static Shared * sh;
static Model mm; static std::vector<Op> const * path; static size_t pos;
static void * slot[MAXN]; static int offs[MAXN]; static int depth[MAXN];
static u64 exp_data; static int exp_from; static int who_expect; static bool exp_exit;
static jmp_buf back;
static void bad(char const * f, u64 a = 0, u64 b = 0, u64 c = 0) {
    if (!sh->bad) { snprintf(sh->msg, sizeof sh->msg, f, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c); sh->bad = 1; }
    longjmp(back, 1);
}
static bool in_region(int x, u64 a) { return a >= (u64)bot(x) && a < (u64)bot(x) + STK; }
static void set_in(In & in, int who, int prof, int d) {
    for (int k = 0; k < 6; ++k) in.r[k] = reg_pattern(who, prof, d, k);
    in.mx = MXS[prof]; in.cw = CWS[prof]; in.guard = guard_pattern(who, prof);
}
static void check_out(In const & in, Out const & o, char const * what) {
    static char const * const nm[6] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
    for (int k = 0; k < 6; ++k) if (in.r[k] != o.r[k]) { char b[120]; snprintf(b, sizeof b, "after %s register %s is %%#llx, was %%#llx", what, nm[k]); bad(b, o.r[k], in.r[k]); }
#if FP
    if ((o.mx & 0xffc0) != (in.mx & 0xffc0)) { char b[120]; snprintf(b, sizeof b, "after %s the SSE control settings are %%#llx, were %%#llx", what); bad(b, o.mx, in.mx); }
    if (((o.cw ^ in.cw) & 0x0f3f)) { char b[120]; snprintf(b, sizeof b, "after %s the x87 control word is %%#llx, was %%#llx", what); bad(b, o.cw, in.cw); }
#endif
#if GUARD
    if (o.guard != in.guard) { char b[120]; snprintf(b, sizeof b, "after %s the stack guard is %%#llx, was %%#llx", what); bad(b, o.guard, in.guard); }
#endif
    for (int k = 0; k < 4; ++k) if (o.can[k] != 0x1122334455667788ull) { char b[120]; snprintf(b, sizeof b, "%s wrote %%#llx into the caller's frame", what); bad(b, o.can[k]); }
}
static void check_entry(int x, int prof, int gwho, char const * what, bool aligned) {
    (void)prof; (void)gwho; char b[160];
    if (x && !in_region(x, ent_rsp)) { snprintf(b, sizeof b, "%s does not run on the stack of context %d", what, x); bad(b); }
    if (aligned && ((ent_rsp + 8) & 15)) { snprintf(b, sizeof b, "the stack is misaligned when %s is entered", what); bad(b); }
#if FP
    if ((ent_mx & 0xffc0) != (MXS[prof] & 0xffc0)) { snprintf(b, sizeof b, "%s is entered with SSE control settings %%#llx instead of %%#llx", what); bad(b, ent_mx, MXS[prof]); }
    if ((ent_cw ^ CWS[prof]) & 0x0f3f) { snprintf(b, sizeof b, "%s is entered with x87 control word %%#llx instead of %%#llx", what); bad(b, ent_cw, CWS[prof]); }
#endif
#if GUARD
    if (ent_guard != guard_pattern(gwho, prof)) { snprintf(b, sizeof b, "%s is entered with stack guard %%#llx instead of %%#llx", what); bad(b, ent_guard, guard_pattern(gwho, prof)); }
#endif
}
static int makewho[MAXN];
#ifdef API
static H * hslot(int x) { static H * h = (H *)calloc(MAXN, sizeof(H)); return h + x; }
struct Quiet { boost::context::stack_context s; Quiet(int x) { s.sp = top(x, 0); s.size = STK; } boost::context::stack_context allocate() { return s; } void deallocate(boost::context::stack_context &) {} };
static __attribute__((noinline)) void note_state(u64 frame) {
    ent_rsp = frame; unsigned short cw = 0;
    asm volatile("stmxcsr %0\n fnstcw %1\n" : "=m"(ent_mx), "=m"(cw)); ent_cw = cw;
    asm volatile("fnclex\n ldmxcsr %0\n fldcw %1\n" :: "m"(dflt_mx), "m"(dflt_cw));
}
# define NOTE() note_state((u64)__builtin_frame_address(0) - 8)
#endif
static unsigned char snap[MAXN * (STK + 2 * BAND)];
static void arrived(void * f, void * d, char const * what) {   // control reached mm.cur with handle f and datum d
    char b[160];
#ifdef API
    if (!*hslot(exp_from)) { snprintf(b, sizeof b, "%s received no context", what); bad(b); }
    return;
#endif
    if (!f) { snprintf(b, sizeof b, "%s received no handle", what); bad(b); }
    if ((u64)d != exp_data) { snprintf(b, sizeof b, "%s received datum %%#llx instead of %%#llx", what); bad(b, (u64)d, exp_data); }
    slot[exp_from] = f;
}
struct Ret { bool ret; ctx::transfer_t t; };
static ctx::transfer_t steps(int me, bool infn);
#ifdef API
static int api_x, api_in, api_prof; static bool api_started;
extern "C" ctx::transfer_t api_make(void *, void *);
extern "C" ctx::transfer_t api_resume(void *, void *);
extern "C" ctx::transfer_t api_with(void *, void *);
void entry_c(void * f, void * d); ctx::transfer_t ontop_c(void * f, void * d);
static __attribute__((noinline)) H api_entry(H && h) {
    NOTE();
# if API
    int x = api_x;
    check_entry(x, api_prof, api_in, "the entry function", true); api_started = true;
    h = std::move(h).resume();
# endif
    new (hslot(exp_from)) H(std::move(h));
    entry_c(0, 0);
    return H();
}
static __attribute__((noinline)) H api_ontop(H && h) {
    NOTE();
    u32 mx = ent_mx, cw = ent_cw;
    new (hslot(exp_from)) H(std::move(h));
    ontop_c(0, 0);
    asm volatile("fnclex\n ldmxcsr %0\n fldcw %1\n" :: "m"(mx), "m"(cw));
    return std::move(*hslot(exp_from));
}
ctx::transfer_t api_make(void *, void *) {
    Quiet q(api_x); boost::context::preallocated p(q.s.sp, q.s.size, q.s); (void)p;
# if API
    new (hslot(api_x)) H(boost::context::callcc(std::allocator_arg, q, &api_entry));
# else
    new (hslot(api_x)) H(std::allocator_arg, q, &api_entry);
# endif
    return ctx::transfer_t();
}
ctx::transfer_t api_resume(void *, void *) { H h = std::move(*hslot(api_x)).resume(); new (hslot(exp_from)) H(std::move(h)); return ctx::transfer_t(); }
ctx::transfer_t api_with(void *, void *) { H h = std::move(*hslot(api_x)).resume_with(&api_ontop); new (hslot(exp_from)) H(std::move(h)); return ctx::transfer_t(); }
#endif
static void do_make(int me, Op const & o) {
#ifdef API
    { In in; Out out; set_in(in, me, o.p, 9); api_x = o.x; api_in = me; api_prof = o.p; api_started = false; in.fn = (u64)&api_make; ent_rsp = 0;
      raw_tramp(&in, &out); check_out(in, out, "a creation");
      if (!*hslot(o.x)) bad("the new context is empty");
      if (API ? !api_started : ent_rsp != 0) bad("creation ran or did not run the function");
      makewho[o.x] = me; depth[o.x] = 0; return; }
#else
    memcpy(snap, area, N * (STK + 2 * BAND));
    unsigned char * t = top(o.x, OFFS[o.k]);
    In in; Out out; set_in(in, me, o.p, 9);
    ctx::fcontext_t (*mk)(void *, std::size_t, void (*)(ctx::transfer_t)) = &ctx::make_fcontext;
    in.a0 = (u64)t; in.a1 = STK - OFFS[o.k]; in.a2 = (u64)&raw_entry_stub; in.fn = (u64)mk;
    ent_rsp = 0;
    raw_tramp(&in, &out);
    check_out(in, out, "make_fcontext");
    if (ent_rsp) bad("make_fcontext ran the entry function");
    if (!out.rax) bad("make_fcontext returned no handle");
    // the caller may run on one of the regions: only bytes the caller's own frames cannot touch are compared
    for (int x = 1; x < N; ++x) {
        unsigned char * lo = bot(x) - BAND, * hi = bot(x) + STK + BAND;
        if (x == me) { for (unsigned char * q = hi - BAND; q < hi; ++q) if (*q != snap[q - area]) bad("make_fcontext wrote above the stack of its caller"); continue; }
        for (unsigned char * q = lo; q < hi; ++q) if (*q != snap[q - area]) {
            if (x != o.x) bad("make_fcontext wrote to the stack of context %llu", x);
            if (q >= t) bad("make_fcontext wrote %llu bytes above the given top", q - t);
            if (q < t - 512) bad("make_fcontext wrote %llu bytes below the given top", t - q);
        }
    }
    slot[o.x] = (void *)out.rax; offs[o.x] = OFFS[o.k]; makewho[o.x] = me; depth[o.x] = 0;
#endif
}
static ctx::transfer_t steps(int me, bool infn) {
    volatile u64 loc[8]; int const d = depth[me]++;
    for (int k = 0; k < 8; ++k) loc[k] = reg_pattern(me, 3, d, k);
    for (;;) {
        if (mm.cur != me) bad("context %llu runs instead of context %llu", me, mm.cur);
        if (pos >= path->size()) longjmp(back, 2);
        Op const o = (*path)[pos++];
        if (o.c == 'M') { do_make(me, o); apply(mm, o); continue; }
        if (o.c == 'R') {
            if (!infn) bad("function frames out of step");
            ctx::transfer_t t; t.fctx = slot[o.x]; exp_data = DATA[pos % 5]; t.data = (void *)exp_data; exp_from = o.x;
            apply(mm, o); depth[me]--;
            return t;
        }
        if (o.c == 'E') { exp_exit = true; sh->done = 77; return ctx::transfer_t(); }
        In in; Out out; set_in(in, me, o.p, d);
        exp_data = DATA[pos % 5]; exp_from = me;
        in.a0 = (u64)slot[o.x]; in.a1 = exp_data; in.a2 = (u64)&raw_ontop_stub;
#ifndef API
        ctx::transfer_t (*j)(ctx::fcontext_t const, void *) = &ctx::jump_fcontext;
        ctx::transfer_t (*ot)(ctx::fcontext_t const, void *, ctx::transfer_t (*)(ctx::transfer_t)) = &ctx::ontop_fcontext;
        in.fn = o.c == 'J' ? (u64)j : (u64)ot;
#endif
        slot[o.x] = nullptr;
#ifdef API
        api_x = o.x; in.fn = o.c == 'J' ? (u64)&api_resume : (u64)&api_with;
#endif
        apply(mm, o);
        raw_tramp(&in, &out);
        if (mm.cur != me) bad("context %llu continued although context %llu was resumed", me, mm.cur);
        check_out(in, out, "a switch");
        arrived((void *)out.rax, (void *)out.rdx, "a resumed context");
        for (int k = 0; k < 8; ++k) if (loc[k] != reg_pattern(me, 3, d, k)) bad("a local variable of context %llu changed", me);
    }
}
static int pend_prof() { return 0; }
static int entry_made_prof;
void entry_c(void * f, void * d) {
    int x = mm.cur;
    Model pre = init_model(); for (size_t i = 0; i + 1 < pos; ++i) apply(pre, (*path)[i]);
    if (pre.st[x] != 'n') bad("an entry function ran a second time");
#if !defined(API) || !API
    check_entry(x, pre.made[x], makewho[x], "the entry function", true);
#endif
    arrived(f, d, "the entry function");
    steps(x, false);
}
ctx::transfer_t ontop_c(void * f, void * d) {
    int x = mm.cur;
    Model pre = init_model(); for (size_t i = 0; i + 1 < pos; ++i) apply(pre, (*path)[i]);
    if ((*path)[pos - 1].c != 'O') bad("a function ran on top although none was given");
    check_entry(x, pre.fr[x].back(), x, "a function run on top", true);
    arrived(f, d, "a function run on top");
    return steps(x, true);
}
static void start_run(std::vector<Op> const & p) {
    mm = init_model(); path = &p; pos = 0; exp_exit = false;
#ifdef API
    memset((void *)hslot(0), 0, MAXN * sizeof(H));
#endif
    memset(slot, 0, sizeof slot); memset(depth, 0, sizeof depth);
    memset(area, 0xA5, N * (STK + 2 * BAND));
}
static void finish_checks() {
    for (int x = 1; x < N; ++x) {
        unsigned char * t = bot(x) + STK - offs[x];
        for (unsigned char * q = bot(x) - BAND; q < bot(x); ++q) if (*q != 0xA5) { snprintf(sh->msg, sizeof sh->msg, "memory below the stack of context %d was written", x); sh->bad = 1; return; }
        for (unsigned char * q = t; q < bot(x) + STK + BAND; ++q) if (*q != 0xA5) { snprintf(sh->msg, sizeof sh->msg, "memory at or above the given top of context %d was written", x); sh->bad = 1; return; }
    }
}
static void run_path(std::vector<Op> const & p) {
    start_run(p); memset(offs, 0, sizeof offs);
    if (p.size() && p.back().c == 'E') {          // the process ends: in a child
        sh->done = 0;
        pid_t c = fork();
        if (!c) { if (!setjmp(back)) steps(0, false); _exit(99); }
        int st; waitpid(c, &st, 0);
        if (!sh->bad && (!WIFEXITED(st) || WEXITSTATUS(st) != 0)) { snprintf(sh->msg, sizeof sh->msg, "returning from the entry function ended the process with wait status %#x", st); sh->bad = 1; }
        return;
    }
    if (ISAPI) {     // per-thread bookkeeping of the library survives an abandoned run: one process each
        pid_t c = fork();
        if (!c) { if (!setjmp(back)) steps(0, false); if (!sh->bad) finish_checks(); _exit(0); }
        int st; waitpid(c, &st, 0);
        if (!sh->bad && st) { snprintf(sh->msg, sizeof sh->msg, "the process ended with wait status %#x", st); sh->bad = 1; }
        return;
    }
    if (!setjmp(back)) steps(0, false);
    if (!sh->bad) finish_checks();
}
// ------------------------------------------------------------ enumerations of single values
#ifdef API
static H peer_loop(H && h) { for (;;) h = std::move(h).resume(); }
static H peer_same(H && h) { return std::move(h); }
static ctx::transfer_t enum_resume(void * ontop, void *) { H * h = hslot(1); *h = ontop ? std::move(*h).resume_with(&peer_same) : std::move(*h).resume(); return ctx::transfer_t(); }
static void enum_tops(long &) {}
static void enum_values(long & n) {
    Quiet q(1);
# if API
    new (hslot(1)) H(boost::context::callcc(std::allocator_arg, q, &peer_loop));
# else
    new (hslot(1)) H(std::allocator_arg, q, &peer_loop);
    *hslot(1) = std::move(*hslot(1)).resume();
# endif
    In base; set_in(base, 0, 0, 0); std::vector<In> v;
    for (u32 m = 0; m < 1024; ++m) { In i = base; i.mx = m << 6; v.push_back(i); }
    for (u32 m = 0; m < 64; ++m) for (u32 pc = 0; pc < 4; ++pc) for (u32 rc = 0; rc < 4; ++rc) if (pc != 1) { In i = base; i.cw = m | 0x40 | pc << 8 | rc << 10; v.push_back(i); }
    for (int k = 0; k < 6; ++k) for (int b = 0; b < 64; ++b) for (int inv = 0; inv < 2; ++inv) { In i = base; for (int j = 0; j < 6; ++j) i.r[j] = inv ? ~u64(0) : 0; i.r[k] ^= u64(1) << b; v.push_back(i); }
    for (In & i : v) for (int ontop = 0; ontop < 2; ++ontop) {
        i.fn = (u64)&enum_resume; i.a0 = ontop; Out o;
        if (setjmp(back)) return;
        raw_tramp(&i, &o); check_out(i, o, ontop ? "a resume with a function" : "a resume"); ++n;
    }
}
#else
static void enum_tops(long & n) {
    for (int off = 0; off < 256; ++off) for (int sz = 0; sz < 4; ++sz) for (int p = 0; p < 2; ++p) {
        static size_t const S[4] = { 1024, 2048, 4096, 12288 };
        std::vector<Op> v; v.push_back(Op{'J', 1, 0, 1});
        start_run(v); offs[1] = off; makewho[1] = 0; Op mk{'M', 1, 0, p};
        unsigned char * t = top(1, off);
        In in; Out out; set_in(in, 0, p, 9);
        ctx::fcontext_t (*f)(void *, std::size_t, void (*)(ctx::transfer_t)) = &ctx::make_fcontext;
        in.a0 = (u64)t; in.a1 = S[sz]; in.a2 = (u64)&raw_entry_stub; in.fn = (u64)f; ent_rsp = 0;
        if (!setjmp(back)) {
            raw_tramp(&in, &out); check_out(in, out, "make_fcontext");
            for (unsigned char * q = bot(1) - BAND; q < bot(1) + STK + BAND; ++q) if (*q != 0xA5 && (q >= t || q < t - 512)) bad("make_fcontext wrote outside the stack (top offset %llu, size %llu)", off, S[sz]);
            std::vector<Op> full; full.push_back(mk); full.push_back(Op{'J', 1, 0, 1}); path = &full; pos = 1; apply(mm, mk);
            slot[1] = (void *)out.rax;
            steps(0, false);
        }
        if (!sh->bad) finish_checks();
        ++n;
        if (sh->bad) return;
    }
}
static u32 g_mx, g_cw; static In g_in;
static void * g_main; static int g_seen;
extern "C" void peer_c(void * f, void * d);
static In peer_in; static Out peer_out;
void peer_entry(ctx::transfer_t t) { for (;;) t = ctx::jump_fcontext(t.fctx, t.data); }
static void enum_values(long & n) {   // every control setting, every bit of every register, one at a time, kept across a switch to a context with other values
    ctx::fcontext_t peer = ctx::make_fcontext(top(1, 0), STK, peer_entry);
    std::vector<In> v;
    In base; set_in(base, 0, 0, 0);
#if FP
    for (u32 m = 0; m < 1024; ++m) { In i = base; i.mx = m << 6; v.push_back(i); }
    for (u32 m = 0; m < 64; ++m) for (u32 pc = 0; pc < 4; ++pc) for (u32 rc = 0; rc < 4; ++rc) if (pc != 1) { In i = base; i.cw = m | 0x40 | pc << 8 | rc << 10; v.push_back(i); }
#endif
    for (int k = 0; k < 6; ++k) for (int b = 0; b < 64; ++b) for (int inv = 0; inv < 2; ++inv) { In i = base; for (int j = 0; j < 6; ++j) i.r[j] = inv ? ~u64(0) : 0; i.r[k] ^= u64(1) << b; v.push_back(i); }
    for (int b = 0; b < 64; ++b) { In i = base; i.guard = u64(1) << b; i.a1 = u64(1) << b; v.push_back(i); }
    ctx::transfer_t (*j)(ctx::fcontext_t const, void *) = &ctx::jump_fcontext;
    ctx::transfer_t (*ot)(ctx::fcontext_t const, void *, ctx::transfer_t (*)(ctx::transfer_t)) = &ctx::ontop_fcontext;
    struct L { static ctx::transfer_t same(ctx::transfer_t t) { return t; } };
    for (In & i : v) for (int ontop = 0; ontop < 2; ++ontop) {
        if (ontop && n < 2) continue;     // the peer has to be entered before
        i.a0 = (u64)peer; i.fn = ontop ? (u64)ot : (u64)j; i.a2 = (u64)&L::same; u64 dat = i.a1 = (&i - &v[0]) % 2 ? ~i.r[0] : i.r[1];
        Out o;
        if (setjmp(back)) return;
        raw_tramp(&i, &o);
        peer = (ctx::fcontext_t)o.rax;
        check_out(i, o, ontop ? "a switch with a function" : "a switch");
        if (o.rdx != dat) bad("datum %#llx instead of %#llx", o.rdx, dat);
        ++n;
    }
}
#endif
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string esc(char const * s) { std::string r; for (; *s; ++s) { if (*s == '"' || *s == '\\') r += '\\'; if (*s != '\n') r += *s; } return r; }
int main(int argc, char ** argv) {
    std::string mode = argc > 1 ? argv[1] : "graph"; double budget = 1e9; int workers = (int)sysconf(_SC_NPROCESSORS_ONLN); std::string ps;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "-N") N = atoi(argv[i + 1]); else if (a == "-P") P = atoi(argv[i + 1]); else if (a == "-F") F = atoi(argv[i + 1]);
        else if (a == "--len") LEN = atoi(argv[i + 1]); else if (a == "--budget") budget = atof(argv[i + 1]); else if (a == "--path") ps = argv[i + 1]; else if (a == "--workers") workers = atoi(argv[i + 1]);
    }
#if GUARD
    asm volatile("mov %%fs:0x28,%0" : "=r"(dflt_guard));
#endif
    area = (unsigned char *)mmap(0, MAXN * (STK + 2 * BAND), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    Shared * shs = (Shared *)mmap(0, sizeof(Shared) * 65, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh = shs;
    if (mode == "path") {
        auto p = parse(ps.c_str());
        pid_t c = fork();
        if (!c) { run_path(p); _exit(0); }
        int st; waitpid(c, &st, 0);
        if (!sh->bad && st) { snprintf(sh->msg, sizeof sh->msg, "the process ended with wait status %#x", st); sh->bad = 1; }
        printf("{\"evaluations\":1,\"nontrivial\":1%s%s%s}\n", sh->bad ? ",\"violation\":{\"message\":\"" : "", sh->bad ? esc(sh->msg).c_str() : "", sh->bad ? "\"}" : "");
        return sh->bad ? 1 : 0;
    }
    if (mode == "enum") {
        if (N < 2) N = 2;
        pid_t c = fork();
        if (!c) { long n = 0, k = 0; enum_tops(n); if (!sh->bad) { start_run(std::vector<Op>()); enum_values(k); } sh->idx = n; sh->done = k; _exit(0); }
        int st; waitpid(c, &st, 0);
        if (!sh->bad && st) { snprintf(sh->msg, sizeof sh->msg, "the process ended with wait status %#x", st); sh->bad = 1; }
        if (sh->bad) { printf("{\"violation\":{\"message\":\"%s\"}}\n", esc(sh->msg).c_str()); return 1; }
        printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"samples\":[\"stack tops and sizes: %ld; machine states kept over a switch: %ld\"]}\n", sh->idx + sh->done, sh->idx + sh->done, sh->idx, sh->done);
        return 0;
    }
    // model search
    std::vector<std::vector<Op>> runs; long states = 0, trans = 0;
    if (mode == "graph") {
        std::unordered_map<std::string, int> seen; std::deque<std::pair<Model, std::vector<Op>>> q; q.push_back({init_model(), {}}); seen[init_model().key()] = 1;
        bool first_end = true;
        while (!q.empty()) {
            auto cur = q.front(); q.pop_front(); ++states; bool cov = false;
            for (auto & o : enabled(cur.first, !ISAPI && states <= 400)) {
                ++trans; auto p = cur.second; p.push_back(o); (void)first_end;
                if (o.c == 'E') { runs.push_back(p); continue; }
                Model m = cur.first; apply(m, o);
                // bring control back once so that the state left behind is looked at as well
                auto e = enabled(m, false);
                bool any = false;
                for (auto & x : e) if (x.c == 'J' && m.st[x.x] == 's') { auto p2 = p; p2.push_back(x); Model m2 = m; apply(m2, x);
                    for (auto & y : enabled(m2, false)) if (y.c == 'R') { p2.push_back(y); break; }
                    runs.push_back(p2); any = true; if (x.p + 1 >= P) continue; }
                if (!any) runs.push_back(p);
                if (seen.emplace(m.key(), 1).second) q.push_back({m, p});
                cov = true;
            }
            (void)cov;
        }
    } else {
        struct D { static void go(Model const & m, std::vector<Op> & p, std::vector<std::vector<Op>> & out, long & tr) {
            if ((int)p.size() == LEN) { out.push_back(p); return; }
            auto e = enabled(m, false); if (e.empty()) { out.push_back(p); return; }
            for (auto & o : e) { ++tr; Model x = m; apply(x, o); p.push_back(o); go(x, p, out, tr); p.pop_back(); }
        } };
        std::vector<Op> p; D::go(init_model(), p, runs, trans); states = (long)runs.size();
    }
    double until = now() + budget; long done = 0; bool capped = false; int samples = 0; (void)samples;
    std::vector<pid_t> pid(workers);
    for (int w = 0; w < workers; ++w) {
        fflush(stdout);
        if (!(pid[w] = fork())) {
            sh = shs + 1 + w; alarm((unsigned)(budget > 1e6 ? 3600 : budget + 60));
            long k = 0;
            static int devnull = 0; (void)devnull;
            for (long i = w; i < (long)runs.size(); i += workers) {
                sh->idx = i; run_path(runs[i]); ++k;
                if (sh->bad) _exit(1);
                if ((k & 63) == 0 && now() > until) { sh->done = k; _exit(3); }
            }
            sh->done = k; _exit(0);
        }
    }
    std::string viol; std::vector<Op> vp;
    for (int w = 0; w < workers; ++w) {
        int st; waitpid(pid[w], &st, 0); Shared & s = shs[1 + w];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) capped = true;
        else if (st) { if (!s.bad) snprintf(s.msg, sizeof s.msg, "the process ended with wait status %#x", st); if (viol.empty() || runs[s.idx].size() < vp.size()) { viol = s.msg; vp = runs[s.idx]; } }
        done += s.done;
    }
    if (!viol.empty()) {
        printf("{\"violation\":{\"message\":\"%s; operations: %s\",\"replay\":[\"path\",\"-N\",\"%d\",\"-P\",\"%d\",\"-F\",\"%d\",\"--path\",\"%s\"]}}\n", esc(viol.c_str()).c_str(), show(vp).c_str(), N, P, F, show(vp).c_str());
        return 1;
    }
    std::string s1 = show(runs[runs.size() / 2]), s2 = show(runs.back());
    printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"states\":%ld,\"transitions\":%ld,\"capped\":%s,\"samples\":[\"%s\",\"%s\"]}\n", done, done, states, trans, capped ? "true" : "false", s1.c_str(), s2.c_str());
    return 0;
}
