// Explorer of the stack allocators: all sequences of making / copying / assigning / dropping allocators and of
// allocating / deallocating stacks in any order, with every memory call counted, checked and optionally failing.
// KIND: 1 fixedsize 2 protected 3 pooled 4 segmented
//   alloc seq -K copies -S stacks --len L -z size [--next n --max m] [--fault 1] [--page P]
//   alloc sizes --page P            every requested size around page boundaries and the largest sizes
#include <map>
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#if KIND == 4
# include <boost/context/segmented_stack.hpp>
#endif
#include <boost/context/stack_traits.hpp>
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <vector>
#include <sys/wait.h>
#include "sys.h"
extern "C" long __wrap_sysconf(int n) { if (n == _SC_PAGESIZE) return (long)sys::page; return sys::__real_sysconf(n); }
namespace ctx = boost::context;
#if KIND == 1
typedef ctx::fixedsize_stack AL;
#elif KIND == 2
typedef ctx::protected_fixedsize_stack AL;
#elif KIND == 3
typedef ctx::pooled_fixedsize_stack AL;
#else
typedef ctx::segmented_stack AL;
#endif
struct Op { char c; int i, j; };
static int K = 2, S = 3, LEN = 5, NEXT = 2, MAX = 0; static std::size_t SZ[2] = { 9000, 4097 };
struct Model { int grp[4], nsz[4]; int st[6], live; int ngrp; };   // st[s]: group of stack s or -1
struct Shared { volatile long idx, done, checks, faults, outcomes; volatile int bad; char msg[500]; };
static Shared * sh;
struct Fail {};
static void bad(std::string const & s) { sys::armed = false; if (!sh->bad) { snprintf(sh->msg, sizeof sh->msg, "%s", s.c_str()); sh->bad = 1; } throw Fail(); }
static std::string num(std::size_t n) { return std::to_string((unsigned long long)n); }
struct Stk { ctx::stack_context c; bool on; char * lo; std::size_t n; unsigned char pat; };
alignas(AL) static unsigned char store[4][sizeof(AL)];
static AL & al(int i) { return *reinterpret_cast<AL *>(store[i]); }
static Stk stk[6];
static sigjmp_buf jb; static volatile sig_atomic_t probing;
static void onsegv(int) { if (probing) siglongjmp(jb, 1); signal(SIGSEGV, SIG_DFL); }
static bool accessible(char * p, bool wr) {
    probing = 1; bool ok = false;
    if (!sigsetjmp(jb, 1)) { volatile char * v = p; char c = *v; if (wr) *v = c; ok = true; }
    probing = 0; return ok;
}
static std::size_t guard_size() { return KIND == 2 ? sys::page : 0; }
static void check_new(Stk & s, std::size_t want, int self) {
    std::size_t g = guard_size();
    if (!s.c.sp || !s.c.size) { if (want || !s.c.sp) bad("allocate() returned an empty description"); }
    s.lo = (char *)s.c.sp - s.c.size;
    if (s.c.size < g || s.c.size - g < want) bad("a stack of " + num(want) + " bytes was requested, the description says " + num(s.c.size) + (g ? " including the guard page" : ""));
    if (KIND != 4 && s.c.size - g > want + 2 * sys::page) bad("a stack of " + num(want) + " bytes was requested, " + num(s.c.size) + " were allocated");
    if (KIND != 4 && !sys::inside(s.lo, s.c.size)) bad("the described range (" + num(s.c.size) + " bytes) is not inside memory the allocator obtained");
    for (int o = 0; o < S; ++o) if (o != self && stk[o].on) { char * a = stk[o].lo; if (s.lo < (char *)stk[o].c.sp && a < (char *)s.c.sp) bad("two live stacks overlap"); }
#if KIND == 2
    { auto it = sys::live().find(s.lo); if (it == sys::live().end()) bad("the guard page is not at the bottom of the mapping");
      std::size_t ps[] = { 0, 1, g / 2, g - 1 };
      for (std::size_t o : ps) if (accessible(s.lo + o, false) || accessible(s.lo + o, true)) bad("byte " + num(o) + " of the guard page is accessible"); }
    if (g == 4096) for (std::size_t o = 0; o < g; o += 512) if (accessible(s.lo + o, false)) bad("the guard page is accessible");
#endif
    s.n = s.c.size - g;
    for (std::size_t o = 0; o < s.n; o += 2048) if (!accessible(s.lo + g + o, true)) bad("byte " + num(o) + " of the usable part is not accessible");
    if (s.n && !accessible((char *)s.c.sp - 1, true)) bad("the top byte of the stack is not accessible");
    memset(s.lo + g, s.pat, s.n);
}
static void check_all() {
    for (int o = 0; o < S; ++o) if (stk[o].on) {
        std::size_t g = guard_size(); unsigned char * p = (unsigned char *)stk[o].lo + g; sh->checks = sh->checks + 1;
        if (stk[o].n && (p[0] != stk[o].pat || memcmp(p, p + 1, stk[o].n - 1))) bad("the contents of a live stack changed");
    }
    for (auto & b : sys::live()) if (!sys::canaries(b)) bad("memory outside the block of " + num(b.second.len) + " bytes was written");
    if (!sys::problem.empty()) bad(sys::problem);
#ifdef VGSHIM
    if (vgshim::table().bad) bad(vgshim::table().bad);
    long on = 0;
    for (int o = 0; o < S; ++o) if (stk[o].on) { ++on; int n = vgshim::announced(stk[o].lo, stk[o].c.sp, guard_size()); if (n != 1) bad("a live stack is announced " + num(n) + " times"); }
    if (vgshim::table().live != on) bad(num(vgshim::table().live) + " stacks are announced, " + num(on) + " are live");
#endif
}
static Model init_model() { Model m; for (int i = 0; i < 4; ++i) m.grp[i] = -1, m.nsz[i] = 0; for (int i = 0; i < 6; ++i) m.st[i] = -1; m.ngrp = 0; return m; }
// allocators without shared state: every allocator made with the same size is as good as its copies
static std::vector<Op> ops(Model const & m) {
    std::vector<Op> v; bool fresh = false;
    for (int i = 0; i < K; ++i) {
        if (m.grp[i] < 0) { if (!fresh) { for (int z = 0; z < 2; ++z) v.push_back(Op{'N', i, z}); for (int j = 0; j < K; ++j) if (m.grp[j] >= 0) { v.push_back(Op{'C', i, j}); v.push_back(Op{'V', i, j}); } } fresh = true; continue; }
        v.push_back(Op{'D', i, 0});
        for (int j = 0; j < K; ++j) if (m.grp[j] >= 0) v.push_back(Op{'=', i, j});
        for (int s = 0; s < S; ++s) if (m.st[s] < 0) { v.push_back(Op{'A', i, s}); break; }
        for (int s = 0; s < S; ++s) if (m.st[s] == m.grp[i] && m.st[s] >= 0) v.push_back(Op{'F', i, s});
    }
    return v;
}
static bool has(Model const & m, int g) { for (int i = 0; i < K; ++i) if (m.grp[i] == g) return true; return false; }
static void reap(Model & m) { for (int s = 0; s < S; ++s) if (m.st[s] >= 0 && !has(m, m.st[s])) { m.st[s] = -1; } }
static void apply(Model & m, Op const & o) {
    switch (o.c) {
    case 'N': m.grp[o.i] = m.ngrp++; m.nsz[o.i] = o.j; break;
    case 'C': case 'V': case '=': m.grp[o.i] = m.grp[o.j]; m.nsz[o.i] = m.nsz[o.j]; reap(m); break;
    case 'D': m.grp[o.i] = -1; reap(m); break;
    case 'A': m.st[o.j] = m.grp[o.i]; break;
    case 'F': m.st[o.j] = -1; break;
    }
}
// without a pool a stack may not be left behind: those sequences are not valid uses
static bool valid(Model const & before, Model const & after, Op const & o) {
    if (KIND == 3) return true;
    for (int s = 0; s < S; ++s) if (before.st[s] >= 0 && after.st[s] < 0 && !(o.c == 'F' && o.j == s)) return false;
    return true;
}
static std::string show(std::vector<Op> const & v) { std::string s; char b[24]; for (auto & o : v) { if (o.c == 'D') snprintf(b, sizeof b, "D%d", o.i); else snprintf(b, sizeof b, "%c%d.%d", o.c, o.i, o.j); if (!s.empty()) s += ' '; s += b; } return s; }
static std::vector<Op> parse(char const * s) { std::vector<Op> v; while (*s) { if (*s == ' ') { ++s; continue; } Op o{*s++, 0, 0}; char * e; o.i = strtol(s, &e, 10); s = e; if (*s == '.') { o.j = strtol(s + 1, &e, 10); s = e; } v.push_back(o); } return v; }
static void construct(int i, std::size_t z) {
#if KIND == 3
    new (store[i]) AL(z, NEXT, MAX);
#else
    new (store[i]) AL(z);
#endif
}
static std::size_t footprint() { std::size_t n = 0; for (auto & b : sys::live()) n += b.second.len; return n; }
static void run_path(std::vector<Op> const & p) {
    Model m = init_model(); for (auto & s : stk) s.on = false;
#ifdef VGSHIM
    vgshim::forget();
#endif
#if KIND == 3
    std::map<int, int> avail, grown; std::size_t peak = 0;         // per pool: stacks given back and not used again, requests for memory
#endif
    try {
        for (size_t n = 0; n < p.size(); ++n) {
#if KIND == 3
            std::size_t before = footprint();
            int pg = p[n].c == 'A' || p[n].c == 'F' ? m.grp[p[n].i] : -1; bool was = p[n].c == 'F' && stk[p[n].j].on;
#endif
            Op o = p[n]; Model x = m; apply(x, o); long f0 = sys::failed; bool threw = false;
            if (o.c == 'A' && (m.grp[o.i] < 0 || stk[o.j].on)) continue;      // the allocator could not be made (a fault)
            if ((o.c == 'C' || o.c == 'V' || o.c == '=') && (m.grp[o.j] < 0 || (o.c == '=' && m.grp[o.i] < 0))) continue;
            if (o.c == 'D' && m.grp[o.i] < 0) continue;
            if (o.c == 'F' && (!stk[o.j].on || m.grp[o.i] < 0)) continue;
            // stacks whose pool goes away with this step
            std::vector<int> gone; for (int s = 0; s < S; ++s) if (stk[s].on && x.st[s] < 0 && o.c != 'F') gone.push_back(s);
            for (int s : gone) {
                stk[s].on = false;
#ifdef VGSHIM
                vgshim::drop(stk[s].lo);   // left behind by the test: its announcement is not the allocator's fault
#endif
            }
            try {
                sys::armed = true;
                switch (o.c) {
                case 'N': construct(o.i, SZ[o.j]); break;
                case 'C': new (store[o.i]) AL(al(o.j)); break;
                case 'V': { AL t(al(o.j)); new (store[o.i]) AL(std::move(t)); } break;
                case '=': al(o.i) = al(o.j); break;
                case 'D': al(o.i).~AL(); break;
                case 'A': stk[o.j].c = ctx::stack_context(); stk[o.j].c = al(o.i).allocate(); break;
                case 'F': { ctx::stack_context c = stk[o.j].c; stk[o.j].on = false; al(o.i).deallocate(c); } break;
                }
                sys::armed = false;
            } catch (std::bad_alloc const &) { sys::armed = false; threw = true; }
              catch (std::exception const & e) { sys::armed = false; threw = true; if (sys::failed_prot == 0) bad(std::string("a failed memory call was reported as ") + e.what()); }
            if (threw && sys::failed == f0) bad("an exception was thrown although no call failed");
            if (threw && o.c != 'A' && o.c != 'N') bad("an exception was thrown by an operation that obtains no memory");
            if (!threw) m = x;
            else if (o.c == 'N') { /* slot stays empty */ }
            if (o.c == 'A' && !threw) { stk[o.j].pat = (unsigned char)(0x11 * (o.j + 1)); check_new(stk[o.j], SZ[m.nsz[o.i]], o.j); stk[o.j].on = true; }
#if KIND == 3
            std::size_t after = footprint(), want = SZ[m.nsz[o.i]];
            if (o.c == 'F' && was) ++avail[pg];
            if (o.c == 'A' && !threw) {
                if (avail[pg] > 0) { --avail[pg]; if (after > before && after > peak) bad("the pool obtained memory although a stack that was given back is unused"); }
                else if (after > before && !grown[pg]++ && sys::failed == f0 && (after - before < NEXT * want || after - before > (NEXT + 1) * want + 2 * sys::page)) bad("the first request of a pool for " + num(NEXT) + " stacks was for " + num(after - before) + " bytes");
            }
            if (after > peak) peak = after;
#endif
            check_all();
        }
        // give everything back
        for (int s = S - 1; s >= 0; --s) if (stk[s].on) for (int i = 0; i < K; ++i) if (m.grp[i] >= 0 && m.grp[i] == m.st[s] && (KIND != 3 || s != 1)) { stk[s].on = false; ctx::stack_context c = stk[s].c; sys::armed = true; al(i).deallocate(c); sys::armed = false; check_all(); break; }
        for (auto & s : stk) s.on = false;
        for (int i = 0; i < K; ++i) if (m.grp[i] >= 0) { sys::armed = true; al(i).~AL(); sys::armed = false; }
        if (!sys::problem.empty()) bad(sys::problem);
        if (!sys::live().empty()) bad(num(sys::live().size()) + " block(s) were not given back");
    } catch (Fail const &) { sys::armed = false; }
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string esc(std::string const & s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c != '\n') r += c; } return r; }
static void dfs(Model const & m, std::vector<Op> & p, std::vector<std::vector<Op>> & runs) {
    if ((int)p.size() == LEN) { runs.push_back(p); return; }
    for (auto & o : ops(m)) { Model x = m; apply(x, o); if (!valid(m, x, o)) continue; p.push_back(o); dfs(x, p, runs); p.pop_back(); }
}
static void sizes_run(long & n) {
    std::vector<std::size_t> z; std::size_t P = sys::page, M = ~std::size_t(0);
    for (std::size_t a = 0; a <= 3 * P + 2; ++a) if (P == 4096 || a % P < 3 || a % P > P - 3 || a % 997 == 0) z.push_back(a);
    for (std::size_t a = 0; a < 3 * P + 3; ++a) if (a % P < 3 || a % P > P - 3) z.push_back(M - a);
    for (std::size_t b : { std::size_t(1) << 17, std::size_t(1) << 20, (std::size_t(1) << 20) + 1, std::size_t(1) << 29, std::size_t(1) << 40, std::size_t(1) << 62, std::size_t(1) << 63, (std::size_t(1) << 63) + 1 }) z.push_back(b);
    for (std::size_t a : z) for (int fault = -1; fault < 2; ++fault) {
        if (KIND == 3 && (a < 16 || a > M / 64)) continue;          // preconditions of the pool
        sys::reset(); sys::fail_at = fault; for (auto & s : stk) s.on = false; sh->idx = (long)a;
#ifdef VGSHIM
        vgshim::forget();
#endif
        bool threw = false, made = false;
        try {
            try { sys::armed = true; construct(0, a); made = true; stk[0].c = al(0).allocate(); sys::armed = false; }
            catch (std::bad_alloc const &) { sys::armed = false; threw = true; }
            catch (std::exception const &) { sys::armed = false; threw = true; if (!sys::failed_prot) throw; }
            if (!threw) { stk[0].pat = 0x5a; check_new(stk[0], a, 0); stk[0].on = true; check_all(); if (a < (1u << 19)) sh->outcomes |= 1; ctx::stack_context c = stk[0].c; stk[0].on = false; sys::armed = true; al(0).deallocate(c); sys::armed = false; }
            else { sh->outcomes |= 2; if (a && a < (1u << 27) && !sys::failed) bad("allocate() of " + num(a) + " bytes failed although memory was available"); }
            if (made) { sys::armed = true; al(0).~AL(); sys::armed = false; }
            check_all();
            if (!sys::problem.empty()) bad(sys::problem);
            if (!sys::live().empty()) bad("memory was not given back");
        } catch (Fail const &) { sys::armed = false; char b[700]; snprintf(b, sizeof b, "%s; requested size %zu, page size %zu, failing call %d", sh->msg, a, P, fault); snprintf(sh->msg, sizeof sh->msg, "%s", b); return; }
        ++n; if (sys::failed) sh->faults = sh->faults + 1;
    }
    // the default size
    sys::reset(); for (auto & s : stk) s.on = false;
    try {
        std::size_t d = ctx::stack_traits::default_size();
        sys::armed = true; AL a; stk[0].c = a.allocate(); sys::armed = false; stk[0].pat = 1; check_new(stk[0], d, 0);
        ctx::stack_context c = stk[0].c; sys::armed = true; a.deallocate(c); sys::armed = false; ++n;
    } catch (Fail const &) { sys::armed = false; }
}
// many copies, many stacks and many cycles: counters of every width are passed
static void many_run(long & n) {
    for (long copies : { 1L, 2L, 127L, 128L, 255L, 256L, 257L, 32768L, 65535L, 65536L, 65537L, 70000L }) for (int order = 0; order < 3; ++order) for (int via = 0; via < 3; ++via) {
        sys::reset(); for (auto & s : stk) s.on = false; sh->idx = copies;
#ifdef VGSHIM
        vgshim::forget();
#endif
        try {
            std::vector<AL> v; v.reserve(copies + 1);
            sys::armed = true; construct(0, 9000); sys::armed = false;
            for (long i = 0; i < copies; ++i) v.push_back(via == 0 ? al(0) : i ? v[via == 1 ? i - 1 : i / 2] : al(0));
            for (int k = 0; k < 2; ++k) { AL & a = k ? v.back() : al(0); sys::armed = true; stk[k].c = a.allocate(); sys::armed = false; stk[k].pat = (unsigned char)(0x21 + k); check_new(stk[k], 9000, k); stk[k].on = true; }
            // all but one are dropped; the stacks stay usable and go back through the one that is left
            long keep = order == 0 ? copies - 1 : order == 1 ? 0 : copies / 2;
            sys::armed = true; al(0).~AL();
            if (order == 1) { while ((long)v.size() > 1) v.pop_back(); }
            else { AL last(v[keep]); v.clear(); v.push_back(last); }
            sys::armed = false;
            check_all();
            for (int k = 0; k < 2; ++k) { ctx::stack_context c = stk[k].c; stk[k].on = false; sys::armed = true; v[0].deallocate(c); sys::armed = false; check_all(); }
            sys::armed = true; v.clear(); sys::armed = false;
            if (!sys::problem.empty()) bad(sys::problem);
            if (!sys::live().empty()) bad(num(sys::live().size()) + " block(s) were not given back");
        } catch (Fail const &) { sys::armed = false; char b[700]; snprintf(b, sizeof b, "%s; %ld copies of the allocator, dropped %s", sh->msg, copies, order == 0 ? "except the last" : order == 1 ? "in reverse order" : "except a middle one"); snprintf(sh->msg, sizeof sh->msg, "%s", b); return; }
        ++n;
    }
    // many stacks alive, given back in three orders; twice, the second time without more memory from the system
    for (long stacks : { 1L, 2L, 3L, 31L, 32L, 33L, 64L, 100L, 255L, 256L, 257L, 600L }) for (int order = 0; order < 3; ++order) {
        sys::reset(); for (auto & s : stk) s.on = false; sh->idx = stacks;
#ifdef VGSHIM
        vgshim::forget();
#endif
        try {
            sys::armed = true; construct(0, 4097); sys::armed = false;
            std::size_t mem = 0;
            for (int round = 0; round < 3; ++round) {
                std::vector<Stk> v(stacks);
                for (auto & s : v) { sys::armed = true; s.c = al(0).allocate(); sys::armed = false; check_new(s, 4097, -1); s.on = true; }
                std::vector<std::pair<char *, char *>> r; for (auto & s : v) r.push_back(std::make_pair(s.lo, (char *)s.c.sp)); std::sort(r.begin(), r.end());
                for (std::size_t i = 1; i < r.size(); ++i) if (r[i].first < r[i - 1].second) bad("two of many live stacks overlap");
                for (std::size_t i = 0; i < v.size(); ++i) { char * lo = (char *)v[i].c.sp - 4097, * hi = (char *)v[i].c.sp; *(std::size_t *)(((std::size_t)lo + 7) & ~(std::size_t)7) = i; *(std::size_t *)((std::size_t)(hi - 16) & ~(std::size_t)7) = ~i; }
                for (std::size_t i = 0; i < v.size(); ++i) { char * lo = (char *)v[i].c.sp - 4097, * hi = (char *)v[i].c.sp; if (*(std::size_t *)(((std::size_t)lo + 7) & ~(std::size_t)7) != i || *(std::size_t *)((std::size_t)(hi - 16) & ~(std::size_t)7) != ~i) bad("the contents of one of many stacks changed"); }
                if (round == 0) mem = footprint(); else if (footprint() > mem) bad("the same number of stacks needs more memory the second time: " + num(footprint()) + " instead of " + num(mem));
                for (long i = 0; i < stacks; ++i) { long k = order == 0 ? i : order == 1 ? stacks - 1 - i : (i * 7 + 3) % stacks; while (!v[k].on) k = (k + 1) % stacks; v[k].on = false; ctx::stack_context c = v[k].c; sys::armed = true; al(0).deallocate(c); sys::armed = false; }
                if (!sys::problem.empty()) bad(sys::problem);
            }
            sys::armed = true; al(0).~AL(); sys::armed = false;
            if (!sys::live().empty()) bad(num(sys::live().size()) + " block(s) were not given back");
        } catch (Fail const &) { sys::armed = false; char b[700]; snprintf(b, sizeof b, "%s; %ld stacks, order %d", sh->msg, stacks, order); snprintf(sh->msg, sizeof sh->msg, "%s", b); return; }
        ++n;
    }
    // many cycles with one stack
    sys::reset(); for (auto & s : stk) s.on = false;
#ifdef VGSHIM
    vgshim::forget();
#endif
    try {
        sys::armed = true; construct(0, 9000); sys::armed = false;
        std::size_t mem = 0;
        for (long i = 0; i < 70000; ++i) {
            sh->idx = i; sys::armed = true; stk[0].c = al(0).allocate(); sys::armed = false;
            if (i == 1) mem = footprint(); else if (i > 1 && footprint() > mem) bad("cycle " + num(i) + " of allocating and giving back needs more memory than the second");
            if ((i & 4095) == 0) { stk[0].pat = 7; check_new(stk[0], 9000, 0); }
            ctx::stack_context c = stk[0].c; sys::armed = true; al(0).deallocate(c); sys::armed = false;
        }
        sys::armed = true; al(0).~AL(); sys::armed = false; ++n;
        if (!sys::problem.empty()) bad(sys::problem);
        if (!sys::live().empty()) bad(num(sys::live().size()) + " block(s) were not given back");
    } catch (Fail const &) { sys::armed = false; }
}
struct Traits : ctx::stack_traits { static std::size_t default_size() noexcept { return 20000; } };
int main(int argc, char ** argv) {
    std::string mode = argc > 1 ? argv[1] : "seq", ps; double budget = 1e9; int workers = (int)sys::__real_sysconf(_SC_NPROCESSORS_ONLN), fault = 0; long failn = -1; bool failfrom = false;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string a = argv[i]; char const * b = argv[i + 1];
        if (a == "-K") K = atoi(b); else if (a == "-S") S = atoi(b); else if (a == "--len") LEN = atoi(b); else if (a == "--next") NEXT = atoi(b); else if (a == "--max") MAX = atoi(b);
        else if (a == "-z") SZ[0] = strtoul(b, 0, 10); else if (a == "-y") SZ[1] = strtoul(b, 0, 10); else if (a == "--page") sys::page = strtoul(b, 0, 10); else if (a == "--budget") budget = atof(b);
        else if (a == "--fault") fault = atoi(b); else if (a == "--path") ps = b; else if (a == "--failat") failn = atol(b); else if (a == "--failfrom") { failn = atol(b); failfrom = true; }
    }
    static char sigstk[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = sigstk; ss.ss_size = sizeof sigstk; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsegv; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
    Shared * shs = (Shared *)sys::__real_mmap(0, sizeof(Shared) * 65, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (mode == "sizes" || mode == "many") {
        sh = shs; long n = 0; fflush(stdout); pid_t c = fork();
        if (!c) { if (mode == "many") many_run(n); else sizes_run(n); sh->done = n; _exit(0); }
        int st; waitpid(c, &st, 0);
        if (st && !sh->bad) { snprintf(sh->msg, sizeof sh->msg, mode == "many" ? "the process ended with wait status %#x with %ld copies, stacks or cycles" : "the process ended with wait status %#x for requested size %ld", st, sh->idx); sh->bad = 1; }
        if (sh->bad) { printf("{\"violation\":{\"message\":\"%s\"}}\n", esc(sh->msg).c_str()); return 1; }
        if (mode == "many") { printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"samples\":[\"up to 70000 copies, 600 live stacks, 70000 cycles\"]}\n", sh->done, sh->done); return 0; }
        printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"failing_calls\":%ld,\"samples\":[\"requested sizes 0..%zu, largest sizes, default size; page size %zu\"]}\n", sh->done, sh->done, sh->faults, 3 * sys::page + 2, sys::page);
        return 0;
    }
    std::vector<std::vector<Op>> runs; long trans = 0;
    if (mode == "path") { runs.push_back(parse(ps.c_str())); workers = 1; }
    else { std::vector<Op> p; dfs(init_model(), p, runs); }
    for (auto & r : runs) trans += (long)r.size();
    double until = now() + budget; long done = 0, checks = 0, faults = 0; bool capped = false; std::string viol; std::vector<Op> vp; std::string vextra; std::vector<pid_t> pid(workers);
    for (int w = 0; w < workers; ++w) if (!(pid[w] = fork())) {
        sh = shs + w; long k = 0; alarm((unsigned)(budget > 1e6 ? 3600 : budget + 60));
        for (long i = w; i < (long)runs.size(); i += workers) {
            sh->idx = i; sys::reset(); sh->outcomes = -1;
            if (failn >= 0) { if (failfrom) sys::fail_from = failn; else sys::fail_at = failn; }
            run_path(runs[i]); long n = sys::calls; ++k;
            if (sh->bad) _exit(1);
            if (fault) for (int from = 0; from < 2; ++from) for (long f = 0; f < n; ++f) {
                sys::reset(); if (from) sys::fail_from = f; else sys::fail_at = f; sh->outcomes = f * 2 + from;
                run_path(runs[i]); ++k; sh->faults = sh->faults + 1;
                if (sh->bad) _exit(1);
            }
            sh->done = k;
            if ((i & 15) == 0 && now() > until) _exit(3);
        }
        _exit(0);
    }
    for (int w = 0; w < workers; ++w) {
        int st; waitpid(pid[w], &st, 0); Shared & s = shs[w]; done += s.done; checks += s.checks; faults += s.faults;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) capped = true;
        else if (st) { if (!s.bad) snprintf(s.msg, sizeof s.msg, "the process ended with wait status %#x", st); if (viol.empty() || runs[s.idx].size() < vp.size()) { viol = s.msg; vp = runs[s.idx]; vextra = s.outcomes < 0 ? "" : (s.outcomes % 2 ? ",\"--failfrom\",\"" : ",\"--failat\",\"") + std::to_string(s.outcomes / 2) + "\""; } }
    }
    if (!viol.empty()) { printf("{\"violation\":{\"message\":\"%s; operations: %s%s\",\"replay\":[\"path\",\"-K\",\"%d\",\"-S\",\"%d\",\"-z\",\"%zu\",\"-y\",\"%zu\",\"--next\",\"%d\",\"--max\",\"%d\",\"--page\",\"%zu\",\"--path\",\"%s\"%s]}}\n", esc(viol).c_str(), show(vp).c_str(), esc(vextra).c_str(), K, S, SZ[0], SZ[1], NEXT, MAX, sys::page, show(vp).c_str(), vextra.c_str()); return 1; }
    printf("{\"evaluations\":%ld,\"nontrivial\":%ld,\"states\":%ld,\"transitions\":%ld,\"stack_checks\":%ld,\"failing_calls\":%ld,\"capped\":%s,\"samples\":[\"%s\",\"%s\"]}\n", done, done, (long)runs.size(), trans, checks, faults, capped ? "true" : "false", show(runs[runs.size() / 2]).c_str(), show(runs.back()).c_str());
    return 0;
}
