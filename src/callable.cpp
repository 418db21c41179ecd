// Exhaustive enumeration of callable form x value category x creation form x way of ending (and, for functions given to
// resume_with, x target state x what the function does), with every instance tracked, on the real library.
//   callable [all | one <index> <category> <creation> <ending>]
#if API
# include <boost/context/continuation.hpp>
namespace ctx = boost::context;
typedef ctx::continuation H;
#else
# include <boost/context/fiber.hpp>
namespace ctx = boost::context;
typedef ctx::fiber H;
#endif
#include <boost/context/preallocated.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <signal.h>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <utility>
#include <vector>
static std::string bad; static char where[300];
static void fail(std::string const & m) { if (bad.empty()) bad = m; }
static void on_fault(int s) { dprintf(1, "\n{\"violation\":{\"message\":\"signal %d at %s\"}}\n", s, where); _exit(1); }
// ---------------------------------------------------------------- tracked instances
struct Live { void const * p; bool original; };
static Live live[64]; static int nlive, copies, moves, calls, destroyed, created;
static char * reg_lo, * reg_hi; static bool making_originals, check_place, on_stack_private;
static void const * stored;           // the first instance constructed on the context's own memory
static void born(void const * p) {
    for (int i = 0; i < nlive; ++i) if (live[i].p == p) { fail("an instance is constructed over a living one"); return; }
    if (nlive == 64) { fail("too many instances"); return; }
    live[nlive].p = p; live[nlive].original = making_originals; ++nlive; ++created;
    if (!making_originals && !stored && (char *)p >= reg_lo && (char *)p < reg_hi) stored = p;
}
static void died(void const * p) {
    for (int i = 0; i < nlive; ++i) if (live[i].p == p) { live[i] = live[--nlive]; ++destroyed; return; }
    fail("an instance is destroyed that does not exist (destroyed twice)");
}
static Live const * find(void const * p) { for (int i = 0; i < nlive; ++i) if (live[i].p == p) return &live[i]; return 0; }
struct Tracker {
    int tag, state; bool moved_from;
    Tracker() : tag(4711), state(0), moved_from(false) { born(this); }
    Tracker(Tracker const & o) : tag(o.tag), state(o.state), moved_from(false) { if (!find(&o)) fail("a copy is made of an object that does not exist"); if (o.moved_from) fail("a copy is made of a moved-from object"); born(this); ++copies; }
    Tracker(Tracker && o) noexcept : tag(o.tag), state(o.state), moved_from(false) { if (!find(&o)) fail("an object that does not exist is moved"); if (o.moved_from) fail("a moved-from object is moved"); o.moved_from = true; o.tag = 0; born(this); ++moves; }
    ~Tracker() { died(this); tag = -1; }
    Tracker & operator=(Tracker const &) = delete;
};
struct Pin { Tracker t; Pin() {} Pin(Pin const &) = delete; Pin(Pin && o) : t(std::move(o.t)) {} };     // move-only
static int ending;          // what the code does: 0 goes on, 1 it is destroyed while suspended, 2 before start, 3 throws (on top)
struct Boom { int v; };
static bool by_ref, is_top, handed_on;     // handed_on: the moved object keeps its instance behind a pointer
static void running(Tracker const & t) {
    ++calls;
    Live const * l = find(&t);
    if (!l) { fail("the function runs on an object that does not exist"); return; }
    if (t.moved_from || t.tag != 4711) fail("a moved-from object runs");
    if (l->original && !by_ref && !handed_on) fail("the original runs instead of the stored object");
    if (!l->original && by_ref) fail("a copy runs instead of the referenced object");
    if (check_place && !by_ref && !is_top && (void const *)&t != stored && stored) fail("another instance than the stored one runs");
    if (t.state != 0) fail("the object was called before");
}
static int after;           // code behind the switch inside the function
static H way_back;
static H work(H && m) {         // common to all forms
    if (is_top) {
        if (ending == 3) { way_back = std::move(m); throw Boom{42}; }      // (the way back must not be destroyed with the function's frame)
        if (ending == 1 || ending == 4) m = std::move(m).resume();
        ++after;
        return std::move(m);
    }
    m = std::move(m).resume();
    ++after;
    return std::move(m);
}
static H tracked(Tracker & t, H && m) { running(t); t.state = 77; m = work(std::move(m)); if (t.state != 77) fail("the object changed while it was suspended"); t.state = 78; return std::move(m); }
static H tracked(Tracker const & t, H && m) { running(t); m = work(std::move(m)); if (t.tag != 4711) fail("the object changed while it was suspended"); return std::move(m); }
// ---------------------------------------------------------------- forms of callables
struct Wrong {};
struct FPlain { Tracker t; H operator()(H && m) { return tracked(t, std::move(m)); } };
struct FConst { Tracker t; H operator()(H && m) const { return tracked(t, std::move(m)); } };
struct FLval { Tracker t; H operator()(H && m) & { return tracked(t, std::move(m)); } H operator()(H && m) && { fail("the stored object is called as a temporary"); return tracked(t, std::move(m)); } };
struct FQual { Tracker t; H operator()(H && m) & { return tracked(t, std::move(m)); } H operator()(H && m) const & { fail("the stored object is called as a constant"); return tracked(t, std::move(m)); } H operator()(H && m) && { fail("the stored object is called as a temporary"); return tracked(t, std::move(m)); } };
struct FValue { Tracker t; H operator()(H m) { return tracked(t, std::move(m)); } };
struct FGeneric { Tracker t; template <class X> H operator()(X && m) { static_assert(std::is_same<X, H>::value, "the context object is passed as a temporary"); return tracked(t, std::move(m)); } };
struct FNoexcept { Tracker t; H operator()(H && m) noexcept { return tracked(t, std::move(m)); } };
struct FDefault { Tracker t; H operator()(H && m, int x = 5, Wrong = Wrong()) { if (x != 5) fail("a default argument got lost"); return tracked(t, std::move(m)); } };
struct FOver { Tracker t; H operator()(H && m) { return tracked(t, std::move(m)); } H operator()(int) { fail("the wrong overload runs"); return H(); } H operator()(H const &) { fail("the object is passed as a constant"); return H(); } };
struct FConv { Tracker t; struct Any { H h; template <class X, class = typename std::enable_if<std::is_same<X, H>::value>::type> Any(X && x) : h(std::forward<X>(x)) {} }; H operator()(Any a) { return tracked(t, std::move(a.h)); } };
struct FMoveOnly { Pin p; FMoveOnly() {} FMoveOnly(FMoveOnly &&) = default; H operator()(H && m) { return tracked(p.t, std::move(m)); } };
struct FMoveConst { Pin p; FMoveConst() {} FMoveConst(FMoveConst &&) = default; H operator()(H && m) const { return tracked(p.t, std::move(m)); } };
template <int A> struct alignas(A) FAlign { Tracker t; H operator()(H && m) { FAlign * s = this; asm volatile("" : "+r"(s)); if ((std::size_t)s % A) fail("the object runs misaligned"); return tracked(t, std::move(m)); } };
struct FBase { Tracker t; virtual ~FBase() {} FBase() {} FBase(FBase const &) = default; FBase(FBase && o) : t(std::move(o.t)) {} H operator()(H && m) { return impl(std::move(m)); } virtual H impl(H &&) { fail("the object was sliced"); return H(); } };
struct FDerived : FBase { H impl(H && m) override { return tracked(t, std::move(m)); } };
struct FPriv { Tracker t; FPriv() {} FPriv(FPriv const &) = default; FPriv(FPriv && o) : t(std::move(o.t)) {} FPriv * operator&() { fail("the overloaded address operator of the function object is used"); return 0; } H operator()(H && m) { return tracked(t, std::move(m)); } };
struct FImplicitCopy { Tracker t; FImplicitCopy() {} FImplicitCopy(FImplicitCopy const & o) : t(o.t) {} FImplicitCopy(FImplicitCopy & o) : t(o.t) {} FImplicitCopy(FImplicitCopy && o) : t(std::move(o.t)) {} template <class X, class = typename std::enable_if<!std::is_same<typename std::decay<X>::type, FImplicitCopy>::value>::type> FImplicitCopy(X &&) { fail("the function object is constructed from something else"); } H operator()(H && m) { return tracked(t, std::move(m)); } };
static H free_fn(H m) { ++calls; return work(std::move(m)); }
static H free_rv(H && m) { ++calls; return work(std::move(m)); }
static H free_ne(H m) noexcept { ++calls; return work(std::move(m)); }
enum Cat { TEMP, NAMED, CNAMED, MOVED, CMOVED, NCAT };
static char const * catname[] = {"temporary", "named", "const named", "std::move(named)", "std::move(const named)"};
enum { T_FUN = 1 /* no instances */, T_MOVEONLY = 2, T_NOEXC = 4 /* no unwinding through it */, T_REF = 8, T_NOPLACE = 16 /* stored behind a pointer */, T_MEMBER = 32 /* pointer to member: no resume_with */, T_OVERALIGN = 64 };
struct Desc { char const * name; int traits; };
// ---------------------------------------------------------------- creation forms
struct Pool { char mem[64 * 1024]; };
static char * arena; static int nallocs, ndeallocs;
struct Alloc { ctx::stack_context allocate() { ++nallocs; ctx::stack_context s; s.sp = arena + 64 * 1024; s.size = 64 * 1024; return s; } void deallocate(ctx::stack_context & s) { ++ndeallocs; if (s.sp != arena + 64 * 1024) fail("wrong stack given back"); s.sp = 0; } };
enum { DFLT, TEMPAL, NAMEDAL, MOVEDAL, PRETEMP, PRENAMED, NCREATE };
template <class F> H make(int form, F && f) {
    Alloc a; ctx::stack_context s; s.sp = arena + 64 * 1024; s.size = 64 * 1024;
    ctx::preallocated p((char *)s.sp - 128, s.size - 128, s);
#if API
# define MAKE(...) ctx::callcc(__VA_ARGS__)
#else
# define MAKE(...) H(__VA_ARGS__)
#endif
    switch (form) {
    case DFLT: return MAKE(std::forward<F>(f));
    case TEMPAL: return MAKE(std::allocator_arg, Alloc(), std::forward<F>(f));
    case NAMEDAL: return MAKE(std::allocator_arg, a, std::forward<F>(f));
    case MOVEDAL: return MAKE(std::allocator_arg, std::move(a), std::forward<F>(f));
    case PRETEMP: return MAKE(std::allocator_arg, p, Alloc(), std::forward<F>(f));
    default: return MAKE(std::allocator_arg, p, a, std::forward<F>(f));
    }
}
static char const * createname[] = {"default allocator", "temporary allocator", "named allocator", "moved allocator", "preallocated, temporary allocator", "preallocated, named allocator"};
// ---------------------------------------------------------------- one creation
static void begin_case() { nlive = copies = moves = calls = destroyed = created = after = nallocs = ndeallocs = 0; stored = 0; check_place = false; making_originals = false; }
static Tracker const * orig_tracker;
static void check_original(Cat cat, Desc const & d, int t0copies) {
    (void)t0copies;
    if (d.traits & T_FUN) return;
    if (!orig_tracker) return;
    if (cat == NAMED || cat == CNAMED || cat == CMOVED) { if (orig_tracker->moved_from || orig_tracker->tag != 4711) fail("a named object was moved from"); if (!by_ref && orig_tracker->state != 0) fail("the original was affected by running the context"); }
}
static long nstates, nops;       // states compared with the expected counts, operations on contexts
static void check_counts(Cat cat, Desc const & d) {
    ++nstates; ++nops;
    if (d.traits & T_FUN) return;
    if (by_ref) { if (copies || moves) fail("a referenced object was copied"); return; }
    if (cat == TEMP || cat == MOVED) { if (copies) fail("a temporary was copied"); }
    else if (copies != 1) { char t[80]; snprintf(t, sizeof t, "a named object was copied %d times", copies); fail(t); }
}
template <class F> static void drive(Cat cat, Desc const & d, int form, int end, F && give) {     // give(form): creates the context
    H m = give(form);
    // the function object is stored now: nothing else is left of it
    check_counts(cat, d);
    check_original(cat, d, copies);
    if (API == 0 && calls) fail("the function ran before the fiber was resumed");
    if (end != 2) {
        if (!API) { m = std::move(m).resume(); }
        if (calls != 1) fail("the function was not invoked exactly once");
        check_original(cat, d, copies);
        if (end == 0) { m = std::move(m).resume(); if (m) fail("the context did not end"); if (after != 1) fail("the function did not continue"); }
        m = H();
        if (end == 1 && after) fail("the function went on although it was destroyed");
    } else { m = H(); if (calls) fail("the function of a fiber that was never resumed ran"); }
    if (calls > 1) fail("the function was invoked twice");
    check_counts(cat, d); check_original(cat, d, copies);
    if (form != DFLT && ndeallocs != 1) fail("the stack was not given back once");
    if (form != DFLT && nallocs != (form >= PRETEMP ? 0 : 1)) fail("the stack was not allocated once");
}
// ---------------------------------------------------------------- one resume_with
static bool host_started, host_caught, host_delivered;
template <class F> static void drive_top(Cat cat, Desc const & d, int tstate, int end, F && give) {        // give(target): resumes it with the function
    host_started = host_caught = host_delivered = false;
    is_top = true;
    {
    H t;
    auto host = [tstate](H && m) {
        host_started = true;
        if (tstate) {
            try { m = std::move(m).resume(); host_delivered = true; } catch (Boom const & b) { host_caught = b.v == 42; return std::move(m); }
        } else host_delivered = true;
        return std::move(m);
    };
    ctx::stack_context s; (void)s;
#if API
    t = ctx::callcc(std::allocator_arg, Alloc(), host);
#else
    t = H(std::allocator_arg, Alloc(), host);
    if (tstate) t = std::move(t).resume();
#endif
    H r;
    r = give(std::move(t));
    if (calls != 1) fail("the function on top was not invoked exactly once");
    check_counts(cat, d); check_original(cat, d, copies);
    if (end == 0) { if (r) fail("the target did not end"); if (!host_delivered || after != 1) fail("the target did not continue"); }
    if (end == 4) { r = std::move(r).resume(); if (r) fail("the target did not end"); if (!host_delivered || after != 1) fail("the target did not continue after the function"); }
    if (end == 1) { r = H(); if (after || host_delivered) fail("code ran behind the point of destruction"); }
    r = H();
    if (calls != 1) fail("the function on top was invoked again");
    check_counts(cat, d); check_original(cat, d, copies);
    }
    is_top = false;
    if (ndeallocs != 1) fail("the stack of the target was not given back once");
}
// a target that survives an exception: it finds the way back in a variable outside
template <class F> static void drive_throw(Cat cat, Desc const & d, int tstate, F && give) {
    host_caught = false; is_top = true;
    {
        auto host = [](H && m) -> H {
            try { m = std::move(m).resume(); fail("the exception got lost"); } catch (Boom const & b) { host_caught = b.v == 42; }
            return std::move(way_back);
        };
        H t;
#if API
        t = ctx::callcc(std::allocator_arg, Alloc(), host);
#else
        t = H(std::allocator_arg, Alloc(), host); t = std::move(t).resume();
#endif
        H r = give(std::move(t)); (void)tstate;
        if (r) fail("the target did not end");
        if (!host_caught) fail("the exception did not reach the target");
        if (calls != 1) fail("the function on top was not invoked exactly once");
        check_counts(cat, d); check_original(cat, d, copies);
    }
    is_top = false;
    if (ndeallocs != 1) fail("the stack of the target was not given back once");
}
// ---------------------------------------------------------------- enumeration
struct Case { int index, cat, form, end; };
static long done; static int index_; static Case only = {-1, 0, 0, 0};
static std::vector<std::string> samples;
static char const * endname[] = {"finished", "destroyed suspended", "destroyed before start", "throws", "suspended, then finished"};
static bool selected(int idx, int cat, int form, int end) { return only.index < 0 || (only.index == idx && only.cat == cat && only.form == form && only.end == end); }
static void report(char const * name, int idx, int cat, int form, int end, char const * how) {
    printf("\n{\"violation\":{\"message\":\"%s: %s, %s, %s, %s\",\"replay\":[\"one\",\"%d\",\"%d\",\"%d\",\"%d\"]}}\n", bad.c_str(), name, catname[cat], how, endname[end], idx, cat, form, end);
    fflush(stdout); _exit(1);
}
// builds an object in the given category and hands it on
template <class G, class Use> static void feed(std::true_type, Cat cat, G mk, Use use) {
    typedef typename std::decay<decltype(mk())>::type F;
    switch (cat) {
    case TEMP: use(mk()); break;
    case NAMED: { making_originals = true; F f(mk()); making_originals = false; copies = moves = 0; use(f); break; }
    case CNAMED: { making_originals = true; F const f(mk()); making_originals = false; copies = moves = 0; use(f); break; }
    case MOVED: { making_originals = true; F f(mk()); making_originals = false; copies = moves = 0; use(std::move(f)); break; }
    default: { making_originals = true; F const f(mk()); making_originals = false; copies = moves = 0; use(std::move(f)); break; }
    }
}
template <class G, class Use> static void feed(std::false_type, Cat cat, G mk, Use use) {
    typedef typename std::decay<decltype(mk())>::type F;
    switch (cat) {
    case TEMP: use(mk()); break;
    case MOVED: { making_originals = true; F f(mk()); making_originals = false; copies = moves = 0; use(std::move(f)); break; }
    default: break;
    }
}
struct UseCreate { Cat cat; Desc d; int form, end; template <class F> void operator()(F && f) const {
    struct Give { typename std::remove_reference<F>::type * f; H operator()(int form) const { return make(form, static_cast<F &&>(*f)); } };
    drive(cat, d, form, end, Give{std::addressof(f)});
} };
struct UseTop { Cat cat; Desc d; int form, end; template <class F> void operator()(F && f) const {
    struct Give { typename std::remove_reference<F>::type * f; int form; H operator()(H && t) const {
        H x(std::move(t));
        if (form >= 4) {    // from a third context
            H res; H * px = &x, * pr = &res; auto self = *this; self.form = form - 4;
            Give const * ps = &self;
#if API
            H c = ctx::callcc([px, pr, ps](H && m) { *pr = (*ps)(std::move(*px)); return std::move(m); });
#else
            H c = H([px, pr, ps](H && m) { *pr = (*ps)(std::move(*px)); return std::move(m); });
            c = std::move(c).resume();
#endif
            if (c) fail("the caller did not come back");
            return std::move(res);
        }
#if API
        if (form & 2) { H r = x.resume_with(static_cast<F &&>(*f)); if (x) fail("the object is not empty after resume_with()"); return std::move(r); }
#endif
        H r = std::move(x).resume_with(static_cast<F &&>(*f)); if (x) fail("the object is not empty after resume_with()"); return std::move(r);
    } };
    if (end == 3) drive_throw(cat, d, form & 1, Give{std::addressof(f), form});
    else drive_top(cat, d, form & 1, end, Give{std::addressof(f), form});
} };
template <bool Copyable, class G> static void form(Desc d, unsigned cats, G mk) {
    int idx = index_++;
    for (int cat = 0; cat < NCAT; ++cat) {
        if (!(cats & (1u << cat))) continue;
        if (!Copyable && cat != TEMP && cat != MOVED) continue;
        for (int f = 0; f < NCREATE; ++f) for (int end = 0; end < 3; ++end) {
            if (API && end == 2) continue;
            if ((d.traits & T_NOEXC) && end == 1) continue;
            if (!selected(idx, cat, f, end)) continue;
            snprintf(where, sizeof where, "%s, %s, %s, %s", d.name, catname[cat], createname[f], endname[end]);
            begin_case(); by_ref = d.traits & T_REF; handed_on = (d.traits & T_NOPLACE) && cat == MOVED; is_top = false; ending = end;
            check_place = f != DFLT && !(d.traits & (T_NOPLACE | T_REF)); reg_lo = arena; reg_hi = arena + 64 * 1024;
            if (f == DFLT) reg_lo = reg_hi = 0;
            feed(std::integral_constant<bool, Copyable>(), Cat(cat), mk, UseCreate{Cat(cat), d, f, end});
            if (nlive) fail("an instance was never destroyed");
            if (created != destroyed) fail("instances created and destroyed do not match");
            if (!(d.traits & T_FUN) && check_place && API == 0 && end != 2 && !stored) fail("the function object is not stored with the context");
            ++done;
            if (!bad.empty()) report(d.name, idx, cat, f, end, createname[f]);
        }
    }
}
template <class G> static void top(Desc d, unsigned cats, G mk) {
    int idx = index_++;
#if __cplusplus < 201703L && (defined(BOOST_USE_UCONTEXT) || defined(BOOST_USE_WINFIB))
    if (d.traits & T_OVERALIGN) return;         // std::function has no over-aligned storage before C++17
#endif
    for (int cat = 0; cat < NCAT; ++cat) {
        if (!(cats & (1u << cat))) continue;
        for (int f = 0; f < 8; ++f) for (int e = 0; e < 4; ++e) {
            static int const es[] = {0, 1, 3, 4}; int end = es[e];
            if ((f & 2) && !API) continue;
            if (!(f & 1) && API) continue;                   // a continuation is never fresh
            if (end == 3 && !(f & 1)) continue;              // leaving the entry function terminates
            if ((d.traits & T_NOEXC) && (end == 1 || end == 3)) continue;
            if (!selected(idx, cat, f, end)) continue;
            snprintf(where, sizeof where, "%s, %s, resume_with form %d, %s", d.name, catname[cat], f, endname[end]);
            begin_case(); by_ref = d.traits & T_REF; handed_on = (d.traits & T_NOPLACE) && cat == MOVED; ending = end; reg_lo = reg_hi = 0;
            feed(std::true_type(), Cat(cat), mk, UseTop{Cat(cat), d, f, end});
            if (nlive) fail("an instance was never destroyed");
            if (created != destroyed) fail("instances created and destroyed do not match");
            ++done;
            if (!bad.empty()) report(d.name, idx, cat, f, end, where);
        }
    }
}
template <class F> static void functor(char const * name, int traits = 0, unsigned cats = 31) {
    struct Mk { F operator()() const { return F(); } };
    form<true>(Desc{name, traits}, cats, Mk()); top(Desc{name, traits}, cats, Mk());
}
template <class F> static void functor_mo(char const * name) { struct Mk { F operator()() const { return F(); } }; form<false>(Desc{name, 0}, 31, Mk()); }
static H bound(Tracker & t, int v, H && m) { if (v != 9) fail("a bound argument changed"); return tracked(t, std::move(m)); }
struct Obj { Tracker t; H method(H m) { return tracked(t, std::move(m)); } H cmethod(H m) const { return tracked(t, std::move(m)); } };
struct DerivedH : H { DerivedH() {} explicit DerivedH(H && h) : H(std::move(h)) {} };
static void contexts_are_not_callables() {
    static_assert(!std::is_constructible<H, H &>::value && !std::is_constructible<H, H const &>::value && !std::is_constructible<H, H const>::value, "a context object is not a callable");
    static_assert(std::is_constructible<H, H>::value && std::is_constructible<H, DerivedH>::value, "a context object is moved");
    static_assert(!std::is_constructible<H, DerivedH &>::value, "a context object is not a callable");
    int ran = 0;
    H a = make(NAMEDAL, [&ran](H && m) { ++ran; m = std::move(m).resume(); ++ran; return std::move(m); });
    begin_case();
    H b(std::move(a));
    if (a || !b) fail("move construction from a context object created a context");
    H c{std::move(b)};
    if (b || !c) fail("brace construction from a context object created a context");
    DerivedH d(std::move(c)); H e(std::move(d));
    if (d || !e) fail("construction from a derived context object created a context");
    H f = (H &&)e; if (e || !f) fail("move construction from a context object created a context");
    if (nallocs) fail("a stack was allocated for a context object");
    if (!API) f = std::move(f).resume();
    f = std::move(f).resume();
    if (f || ran != 2) fail("the context got lost while its object was moved around");
    ++done;
    if (!bad.empty()) report("context object as argument", 9999, 0, 0, 0, "");
}
int main(int argc, char ** argv) {
    arena = (char *)malloc(64 * 1024 + 4096); arena = (char *)(((std::size_t)arena + 255) & ~(std::size_t)255);
    static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_fault; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGILL, &sa, 0);
    if (argc > 5 && !strcmp(argv[1], "one")) only = Case{atoi(argv[2]), atoi(argv[3]), atoi(argv[4]), atoi(argv[5])};
    functor<FPlain>("function object"); functor<FConst>("function object with a const operator()"); functor<FLval>("function object with & and && operators"); functor<FQual>("function object with &, const & and && operators");
    functor<FValue>("function object taking its argument by value"); functor<FGeneric>("function object with a template operator()"); functor<FNoexcept>("function object with a noexcept operator()", T_NOEXC);
    functor<FDefault>("function object with default arguments"); functor<FOver>("function object with overloads"); functor<FConv>("function object with a converting parameter");
    functor_mo<FMoveOnly>("move-only function object"); functor_mo<FMoveConst>("move-only function object with a const operator()");
    functor<FAlign<16> >("function object aligned to 16"); functor<FAlign<32> >("function object aligned to 32", T_OVERALIGN); functor<FAlign<64> >("function object aligned to 64", T_OVERALIGN); functor<FAlign<256> >("function object aligned to 256", T_OVERALIGN);
    functor<FDerived>("polymorphic function object"); functor<FImplicitCopy>("function object with several copy constructors and a greedy one");
    functor<FPriv>("function object with an overloaded address operator");
    struct L {
        static void plain() { auto mk = []() { Tracker t; auto l = [t](H && m) { return tracked(t, std::move(m)); }; copies = 0; moves = 0; return l; }; form<true>(Desc{"lambda", 0}, 31, mk); top(Desc{"lambda", 0}, 31, mk); }
        static void mut() { auto mk = []() { Tracker t; auto l = [t](H && m) mutable { return tracked(t, std::move(m)); }; copies = 0; moves = 0; return l; }; form<true>(Desc{"mutable lambda", 0}, 31, mk); top(Desc{"mutable lambda", 0}, 31, mk); }
        static void val() { auto mk = []() { Tracker t; auto l = [t](H m) mutable { return tracked(t, std::move(m)); }; copies = 0; moves = 0; return l; }; form<true>(Desc{"lambda taking its argument by value", 0}, 31, mk); top(Desc{"lambda taking its argument by value", 0}, 31, mk); }
        static void stdfn() { auto mk = []() { Tracker t; auto l = [t](H && m) mutable { return tracked(t, std::move(m)); }; std::function<H(H &&)> f(std::move(l)); copies = 0; moves = 0; return f; }; form<true>(Desc{"std::function", T_NOPLACE}, 31, mk); top(Desc{"std::function", T_NOPLACE}, 31, mk); }
        static void bind() { auto mk = []() { Tracker t; auto f = std::bind(bound, std::move(t), 9, std::placeholders::_1); copies = 0; moves = 0; return f; }; form<true>(Desc{"std::bind", 0}, 1 | 2 | 8, mk); top(Desc{"std::bind", 0}, 1 | 2 | 8, mk); }
        static void nocap() { auto mk = []() { return [](H && m) { ++calls; return work(std::move(m)); }; }; form<true>(Desc{"lambda without captures", T_FUN}, 31, mk); top(Desc{"lambda without captures", T_FUN}, 31, mk); }
        static void ptr() { auto mk = []() { return &free_fn; }; form<true>(Desc{"function pointer", T_FUN}, 31, mk); top(Desc{"function pointer", T_FUN}, 31, mk); }
        static void ptrrv() { auto mk = []() { return &free_rv; }; form<true>(Desc{"pointer to a function taking a temporary", T_FUN}, 31, mk); top(Desc{"pointer to a function taking a temporary", T_FUN}, 31, mk); }
        static void ptrne() { auto mk = []() { return &free_ne; }; form<true>(Desc{"pointer to a noexcept function", T_FUN | T_NOEXC}, 31, mk); top(Desc{"pointer to a noexcept function", T_FUN | T_NOEXC}, 31, mk); }
#if __cplusplus >= 201402L
        static void generic() { auto mk = []() { Tracker t; auto l = [t](auto && m) mutable { return tracked(t, std::move(m)); }; copies = 0; moves = 0; return l; }; form<true>(Desc{"generic lambda", 0}, 31, mk); top(Desc{"generic lambda", 0}, 31, mk); }
        static void moveonly() { auto mk = []() { Pin p; auto l = [p = std::move(p)](H && m) mutable { return tracked(p.t, std::move(m)); }; copies = 0; moves = 0; return l; }; form<false>(Desc{"move-only lambda", 0}, 31, mk); }
#endif
    };
    L::plain(); L::mut(); L::val(); L::stdfn(); L::bind(); L::nocap(); L::ptr(); L::ptrrv(); L::ptrne();
#if __cplusplus >= 201402L
    L::generic(); L::moveonly();
#endif
    {
        // function references (not pointers)
        int idx = index_++;
        for (int f = 0; f < NCREATE; ++f) for (int end = 0; end < 3; ++end) { if ((API && end == 2) || !selected(idx, 0, f, end)) continue; begin_case(); ending = end; UseCreate{TEMP, Desc{"function reference", T_FUN}, f, end}(free_fn); UseCreate u{TEMP, Desc{"function reference", T_FUN}, f, end}; begin_case(); u(free_rv); ++done; if (!bad.empty()) report("function reference", idx, 0, f, end, createname[f]); }
        idx = index_++;
        for (int f = 0; f < 8; ++f) for (int e = 0; e < 4; ++e) { static int const es[] = {0, 1, 3, 4}; int end = es[e]; if (((f & 2) && !API) || (!(f & 1) && API) || (end == 3 && !(f & 1)) || !selected(idx, 0, f, end)) continue; begin_case(); ending = end; UseTop{TEMP, Desc{"function reference", T_FUN}, f, end}(free_fn); ++done; if (!bad.empty()) report("function reference on top", idx, 0, f, end, ""); }
        // std::ref
        idx = index_++;
        for (int f = 0; f < NCREATE; ++f) for (int end = 0; end < 3; ++end) { if ((API && end == 2) || !selected(idx, 0, f, end)) continue; begin_case(); by_ref = true; ending = end; { making_originals = true; FPlain o; making_originals = false; UseCreate{TEMP, Desc{"std::ref", T_REF}, f, end}(std::ref(o)); if (o.t.moved_from || o.t.tag != 4711) fail("the referenced object was moved"); if (o.t.state != (end == 0 ? 78 : end == 1 ? 77 : 0)) fail("the referenced object did not run"); } if (nlive) fail("instances are left"); by_ref = false; ++done; if (!bad.empty()) report("std::ref", idx, 0, f, end, createname[f]); }
        idx = index_++;
        for (int f = 0; f < 8; ++f) for (int e = 0; e < 4; ++e) { static int const es[] = {0, 1, 3, 4}; int end = es[e]; if (((f & 2) && !API) || (!(f & 1) && API) || (end == 3 && !(f & 1)) || !selected(idx, 0, f, end)) continue; begin_case(); by_ref = true; ending = end; { making_originals = true; FPlain o; making_originals = false; UseTop{TEMP, Desc{"std::ref", T_REF}, f, end}(std::ref(o)); if (o.t.moved_from || o.t.tag != 4711) fail("the referenced object was moved"); } if (nlive) fail("instances are left"); by_ref = false; ++done; if (!bad.empty()) report("std::ref on top", idx, 0, f, end, ""); }
        // bound member functions
        idx = index_++;
        for (int f = 0; f < NCREATE; ++f) for (int end = 0; end < 3; ++end) { if ((API && end == 2) || !selected(idx, 0, f, end)) continue; begin_case(); by_ref = true; ending = end; { making_originals = true; Obj o; making_originals = false; auto b = std::bind(&Obj::method, &o, std::placeholders::_1); UseCreate{TEMP, Desc{"bound member function", T_REF}, f, end}(b); } if (nlive) fail("instances are left"); by_ref = false; ++done; if (!bad.empty()) report("bound member function", idx, 0, f, end, createname[f]); }
        // pointers to members of the context object: the entry function resumes its creator
        idx = index_++;
        H (H::*pm)() && = static_cast<H (H::*)() &&>(&H::resume);
        for (int f = 0; f < NCREATE; ++f) for (int v = 0; v < 3; ++v) for (int end = 0; end < 3; ++end) {
            if ((API && end == 2) || !selected(idx, v, f, end)) continue;
            begin_case(); by_ref = false; ending = end;
            H (H::* const cpm)() && = pm;
            H m = v == 0 ? make(f, static_cast<H (H::*)() &&>(&H::resume)) : v == 1 ? make(f, pm) : make(f, cpm);
            if (end != 2) {
                if (!API) m = std::move(m).resume();
                if (!m) fail("the member function did not run");
                if (end == 0) { m = std::move(m).resume(); if (m) fail("the context did not end"); }
            }
            m = H();
            if (f != DFLT && ndeallocs != 1) fail("the stack was not given back");
            ++done; if (!bad.empty()) report("pointer to member", idx, v, f, end, createname[f]);
        }
    }
    if (only.index < 0 || only.index == 9999) contexts_are_not_callables();
    printf("{\"evaluations\":%ld,\"states\":%ld,\"transitions\":%ld,\"traces_validated_against_impl\":%ld,\"forms\":%d,\"samples\":[\"%s\"]}\n", done, nstates, nops, done, index_, where);
    return 0;
}
