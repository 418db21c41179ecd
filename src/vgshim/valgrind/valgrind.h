// A stand-in for the requests of valgrind that the library makes: it records which stacks were announced.
#pragma once
#include <cstddef>
#define VGSHIM 1
namespace vgshim {
struct Reg { char * lo, * hi; bool on; };
struct Table { Reg r[4096]; unsigned n; long live; char const * bad; };
inline Table & table() { static Table t; return t; }
inline unsigned reg(void const * a, void const * b) {
    Table & t = table(); char * lo = (char *)a, * hi = (char *)b; if (lo > hi) { char * x = lo; lo = hi; hi = x; }
    for (unsigned i = t.n > 4096 ? t.n - 4096 : 0; i < t.n; ++i) { Reg & r = t.r[i % 4096]; if (r.on && lo < r.hi && r.lo < hi && !t.bad) t.bad = "a stack was announced that overlaps one announced before"; }
    Reg & r = t.r[t.n % 4096]; if (r.on && !t.bad) t.bad = "too many stacks announced";
    r.lo = lo; r.hi = hi; r.on = true; ++t.live; return t.n++ + 1000;
}
inline void dereg(unsigned id) {
    Table & t = table(); unsigned i = id - 1000;
    if (i >= t.n || t.n - i > 4096 || !t.r[i % 4096].on) { if (!t.bad) t.bad = "a stack was withdrawn that is not announced"; return; }
    t.r[i % 4096].on = false; --t.live;
}
inline void change(unsigned id, void const * a, void const * b) { Table & t = table(); unsigned i = id - 1000; if (i >= t.n || !t.r[i % 4096].on) { if (!t.bad) t.bad = "a stack was changed that is not announced"; return; } char * lo = (char *)a, * hi = (char *)b; if (lo > hi) { char * x = lo; lo = hi; hi = x; } t.r[i % 4096].lo = lo; t.r[i % 4096].hi = hi; }
// number of announcements for exactly this stack (a guard page of g bytes at its bottom may be left out)
inline int announced(void * lo, void * hi, std::size_t g) {
    Table & t = table(); int n = 0; char * l = (char *)lo, * h = (char *)hi;
    for (unsigned i = t.n > 4096 ? t.n - 4096 : 0; i < t.n; ++i) { Reg & r = t.r[i % 4096]; if (r.on && (r.lo == l || r.lo == l + g) && (r.hi == h || r.hi == h - 1)) ++n; }
    return n;
}
inline void drop(void * p) { Table & t = table(); for (unsigned i = t.n > 4096 ? t.n - 4096 : 0; i < t.n; ++i) { Reg & r = t.r[i % 4096]; if (r.on && r.lo == (char *)p) { r.on = false; --t.live; } } }
inline void forget() { Table & t = table(); t.n = 0; t.live = 0; t.bad = 0; for (unsigned i = 0; i < 4096; ++i) t.r[i].on = false; }
}
#define RUNNING_ON_VALGRIND 1
#define VALGRIND_STACK_REGISTER(a, b) ::vgshim::reg((a), (b))
#define VALGRIND_STACK_DEREGISTER(i) ::vgshim::dereg((i))
#define VALGRIND_STACK_CHANGE(i, a, b) ::vgshim::change((i), (a), (b))
#define VALGRIND_PRINTF(...) 0
