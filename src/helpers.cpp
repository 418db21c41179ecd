// The forwarding helpers against independently computed expectations: every arity up to a bound, every mixture of
// element kinds, every value category of tuple, function and arguments, every kind of callable and of result.
#include <functional>
#include <memory>
#include <tuple>
#include <type_traits>
#include <utility>
#include <boost/context/detail/apply.hpp>
#include <boost/context/detail/invoke.hpp>
#include <boost/context/detail/tuple.hpp>
#include <boost/context/detail/exchange.hpp>
#include <boost/context/detail/index_sequence.hpp>
#include <boost/context/detail/disable_overload.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
namespace bd = boost::context::detail;
#ifndef INVN
# define INVN 3
#endif
#ifndef NMIX
# define NMIX 3
#endif
static long evals, nontriv, typeonly; /* calls and questions; compared values; questions about types only */ static std::string what;
static void bad(std::string const & m) { printf("{\"violation\":{\"message\":\"%s: %s\"}}\n", what.c_str(), m.c_str()); fflush(stdout); exit(1); }
#define CHECK(c, m) do { if (!(c)) bad(m); } while (0)
// ---------------------------------------------------------------- elements
static int live;
struct Tr { int id; int copies, moves; bool from;
    explicit Tr(int i = -1) : id(i), copies(0), moves(0), from(false) { ++live; }
    Tr(Tr const & o) : id(o.id), copies(o.copies + 1), moves(o.moves), from(o.from) { ++live; }
    Tr(Tr && o) noexcept : id(o.id), copies(o.copies), moves(o.moves + 1), from(o.from) { o.from = true; ++live; }
    Tr & operator=(Tr const & o) { id = o.id; copies = o.copies + 1; moves = o.moves; from = o.from; return *this; }
    Tr & operator=(Tr && o) noexcept { id = o.id; copies = o.copies; moves = o.moves + 1; from = o.from; if (&o != this) o.from = true; return *this; }
    ~Tr() { --live; } };
struct Mo { int id; bool from; explicit Mo(int i = -1) : id(i), from(false) { ++live; } Mo(Mo && o) noexcept : id(o.id), from(o.from) { o.from = true; ++live; } Mo & operator=(Mo && o) noexcept { id = o.id; from = o.from; if (&o != this) o.from = true; return *this; } ~Mo() { --live; } };
static int idof(Tr const & t) { return t.id; } static int idof(Mo const & t) { return t.id; } static bool fromof(Tr const & t) { return t.from; } static bool fromof(Mo const & t) { return t.from; }
// kinds of tuple elements: value, move-only value, lvalue reference, rvalue reference
template <int I> struct Home { static Tr & tr() { static Tr t; return t; } static Mo & mo() { static Mo t; return t; } };
struct KV { typedef Tr type; static char const * n() { return "value"; } template <int I> static type make() { return Tr(100 + I); } };
struct KM { typedef Mo type; static char const * n() { return "move-only"; } template <int I> static type make() { return Mo(100 + I); } };
struct KL { typedef Tr & type; static char const * n() { return "reference"; } template <int I> static type make() { Tr & t = Home<I>::tr(); t.id = 100 + I; t.from = false; return t; } };
struct KC { typedef Tr const & type; static char const * n() { return "const reference"; } template <int I> static type make() { Tr & t = Home<I>::tr(); t.id = 100 + I; t.from = false; return t; } };
struct KR { typedef Mo && type; static char const * n() { return "rvalue reference"; } template <int I> static type make() { Mo & t = Home<I>::mo(); t.id = 100 + I; t.from = false; return std::move(t); } };
template <class... K> struct List {};
template <int... I> struct Seq {};
template <int N, int... I> struct MakeSeq : MakeSeq<N - 1, N - 1, I...> {};
template <int... I> struct MakeSeq<0, I...> { typedef Seq<I...> type; };
template <class... K> struct Tup { typedef std::tuple<typename K::type...> type; };
template <class L> struct Names; template <class... K> struct Names<List<K...>> { static std::string get() { std::string s; int d[] = { 0, (s += (s.empty() ? "" : ", "), s += K::n(), 0)... }; (void)d; return "(" + s + ")"; } };
// ---------------------------------------------------------------- head and tail
template <class K> struct Dst { typedef typename K::type type; static type make(int) { return type(-7); } };
template <> struct Dst<KL> { typedef Tr & type; };
template <class T, std::size_t I, bool End> struct Look { static void go(T & t, T & s, int off, int n, bool rv, int total) {
    int id = idof(std::get<I>(t)); CHECK(id == 100 + off + (int)I, "element " + std::to_string(I) + " received value " + std::to_string(id) + " instead of " + std::to_string(100 + off + (int)I));
    CHECK(!fromof(std::get<I>(t)), "an element received a moved-from value"); (void)s; (void)rv; (void)total; ++nontriv;
    Look<T, I + 1, (I + 1 >= std::tuple_size<T>::value)>::go(t, s, off, n, rv, total); } };
template <class T, std::size_t I> struct Look<T, I, true> { static void go(T &, T &, int, int, bool, int) {} };
template <class S, std::size_t I, bool End> struct Src { static void go(S & s, int off, int n, bool rv) {
    bool sel = (int)I >= off && (int)I < off + n; bool isv = !std::is_reference<typename std::tuple_element<I, S>::type>::value;
    CHECK(fromof(std::get<I>(s)) == (sel && rv && isv), "source element " + std::to_string(I) + (fromof(std::get<I>(s)) ? " was moved from" : " was not moved"));
    Src<S, I + 1, (I + 1 >= std::tuple_size<S>::value)>::go(s, off, n, rv); } };
template <class S, std::size_t I> struct Src<S, I, true> { static void go(S &, int, int, bool) {} };
template <class S, class T> static void cmp(S & s, T & t, int off, bool rv) {
    int n = (int)std::tuple_size<T>::value;
    Look<T, 0, std::tuple_size<T>::value == 0>::go(t, t, off, n, rv, 0); Src<S, 0, std::tuple_size<S>::value == 0>::go(s, off, n, rv); ++evals;
}
template <class... K, int... I> static std::tuple<typename K::type...> make(List<K...>, Seq<I...>) { return std::tuple<typename K::type...>(K::template make<I>()...); }
template <class L> struct Len; template <class... K> struct Len<List<K...>> { enum { n = sizeof...(K) }; };
template <class L, int N> struct First; template <class... D> struct Acc {};
template <class L, int N, class... D> struct Take; template <class K, class... R, int N, class... D> struct Take<List<K, R...>, N, D...> { typedef typename Take<List<R...>, N - 1, D..., K>::type type; };
template <class K, class... R, class... D> struct Take<List<K, R...>, 0, D...> { typedef List<D...> type; }; template <class... D> struct Take<List<>, 0, D...> { typedef List<D...> type; };
template <class L, int N> struct Drop; template <class K, class... R, int N> struct Drop<List<K, R...>, N> { typedef typename Drop<List<R...>, N - 1>::type type; };
template <class K, class... R> struct Drop<List<K, R...>, 0> { typedef List<K, R...> type; }; template <> struct Drop<List<>, 0> { typedef List<> type; };
// the destination elements are plain values; the source kinds vary
template <class L> struct Values; template <class... K> struct Values<List<K...>> { typedef std::tuple<typename std::decay<typename K::type>::type...> type; };
template <class L> struct HasMo { enum { v = 0 }; }; template <class... R> struct HasMo<List<KM, R...>> { enum { v = 1 }; }; template <class K, class... R> struct HasMo<List<K, R...>> { enum { v = HasMo<List<R...>>::v }; };
template <class L, int N, bool Ok> struct LTest { static void go() {
    typedef typename MakeSeq<Len<L>::n>::type Q;
    { typename Values<typename Take<L, N>::type>::type t; auto s = make(L(), Q()); what = "head<" + std::to_string(N) + "> of lvalue " + Names<L>::get(); bd::head(t) = s; cmp(s, t, 0, false); }
    { typename Values<typename Drop<L, Len<L>::n - N>::type>::type t; auto s = make(L(), Q()); what = "tail<" + std::to_string(N) + "> of lvalue " + Names<L>::get(); bd::tail(t) = s; cmp(s, t, (int)Len<L>::n - N, false); } } };
template <class L, int N> struct LTest<L, N, false> { static void go() {} };
template <class L, int N> static void ht1() {
    typedef typename MakeSeq<Len<L>::n>::type Q;
    LTest<L, N, !HasMo<L>::v>::go();
    { typename Values<typename Take<L, N>::type>::type t; auto s = make(L(), Q()); what = "head<" + std::to_string(N) + "> of rvalue " + Names<L>::get(); bd::head(t) = std::move(s); cmp(s, t, 0, true); }
    { typename Values<typename Drop<L, Len<L>::n - N>::type>::type t; auto s = make(L(), Q()); what = "tail<" + std::to_string(N) + "> of rvalue " + Names<L>::get(); bd::tail(t) = std::move(s); cmp(s, t, (int)Len<L>::n - N, true); }
}
template <class L, int N> struct HT { static void go() { ht1<L, N>(); HT<L, N - 1>::go(); } }; template <class L> struct HT<L, -1> { static void go() {} };
// ---------------------------------------------------------------- apply
struct Seen { int id; int cat; void const * p; };   // cat: 0 lvalue 1 const lvalue 2 rvalue 3 const rvalue
static std::vector<Seen> seen; static int fncat;
template <class A> static int catof() { typedef typename std::remove_reference<A>::type U; return (std::is_lvalue_reference<A>::value ? 0 : 2) + (std::is_const<U>::value ? 1 : 0); }
template <class A> static void see(A && a) { seen.push_back(Seen{idof(a), catof<A>(), (void const *)&a}); }
static Tr result_obj; static long token;
enum Res { RVoid, RInt, RLRef, RCRef, RRRef, RMo };
template <int R> struct Ret; template <> struct Ret<RVoid> { typedef void type; static void get() {} }; template <> struct Ret<RInt> { typedef int type; static int get() { return 4711; } }; template <> struct Ret<RLRef> { typedef Tr & type; static Tr & get() { return result_obj; } };
template <> struct Ret<RCRef> { typedef Tr const & type; static Tr const & get() { return result_obj; } }; template <> struct Ret<RRRef> { typedef Tr && type; static Tr && get() { return std::move(result_obj); } }; template <> struct Ret<RMo> { typedef Mo type; static Mo get() { return Mo(99); } };
template <int R> struct Rec {
    template <class... A> typename Ret<R>::type operator()(A &&... a) & { fncat = 0; int d[] = { 0, (see(std::forward<A>(a)), 0)... }; (void)d; return Ret<R>::get(); }
    template <class... A> typename Ret<R>::type operator()(A &&... a) const & { fncat = 1; int d[] = { 0, (see(std::forward<A>(a)), 0)... }; (void)d; return Ret<R>::get(); }
    template <class... A> typename Ret<R>::type operator()(A &&... a) && { fncat = 2; int d[] = { 0, (see(std::forward<A>(a)), 0)... }; (void)d; return Ret<R>::get(); }
    template <class... A> typename Ret<R>::type operator()(A &&... a) const && { fncat = 3; int d[] = { 0, (see(std::forward<A>(a)), 0)... }; (void)d; return Ret<R>::get(); }
};
template <int R> struct Use { template <class T> static void go(T && t) { CHECK((std::is_same<T, typename std::conditional<std::is_lvalue_reference<typename Ret<R>::type>::value, typename Ret<R>::type, typename std::remove_reference<typename Ret<R>::type>::type>::type>::value), "the result has another type"); (void)t; } };
static void usei(int v) { CHECK(v == 4711, "the result changed"); } static void user(Tr const & v) { CHECK(&v == &result_obj, "the result refers to another object"); } static void usem(Mo const & v) { CHECK(v.id == 99 && !v.from, "the result changed"); }
template <class F, class T, int R> struct CallApply;
#define CALLAPPLY(r, use) template <class F, class T> struct CallApply<F, T, r> { static void go(F && f, T && t) { static_assert(std::is_same<decltype(bd::apply(std::forward<F>(f), std::forward<T>(t))), typename Ret<r>::type>::value, "type of the result"); use; } }
CALLAPPLY(RVoid, bd::apply(std::forward<F>(f), std::forward<T>(t))); CALLAPPLY(RInt, usei(bd::apply(std::forward<F>(f), std::forward<T>(t)))); CALLAPPLY(RLRef, user(bd::apply(std::forward<F>(f), std::forward<T>(t))));
CALLAPPLY(RCRef, user(bd::apply(std::forward<F>(f), std::forward<T>(t)))); CALLAPPLY(RRRef, user(bd::apply(std::forward<F>(f), std::forward<T>(t)))); CALLAPPLY(RMo, usem(bd::apply(std::forward<F>(f), std::forward<T>(t))));
template <class T, std::size_t I> static int want_cat() { typedef typename std::remove_reference<T>::type U; typedef typename std::tuple_element<I, typename std::remove_const<U>::type>::type E;
    if (std::is_lvalue_reference<E>::value) return std::is_const<typename std::remove_reference<E>::type>::value ? 1 : 0;
    if (std::is_rvalue_reference<E>::value) return std::is_lvalue_reference<T>::value ? 0 : 2;
    return (std::is_lvalue_reference<T>::value ? 0 : 2) + (std::is_const<U>::value || std::is_const<E>::value ? 1 : 0); }
template <class T, std::size_t I, bool End> struct WantSeen { template <class U> static void go(U & t) {
    CHECK(seen[I].id == 100 + (int)I, "argument " + std::to_string(I) + " arrived as " + std::to_string(seen[I].id)); CHECK(seen[I].cat == (want_cat<T, I>()), "argument " + std::to_string(I) + " arrived with value category " + std::to_string(seen[I].cat) + " instead of " + std::to_string(want_cat<T, I>()));
    CHECK(seen[I].p == (void const *)&std::get<I>(t), "argument " + std::to_string(I) + " is not the element itself"); ++nontriv;
    WantSeen<T, I + 1, (I + 1 >= std::tuple_size<typename std::decay<T>::type>::value)>::go(t); } };
template <class T, std::size_t I> struct WantSeen<T, I, true> { template <class U> static void go(U &) {} };
template <class T, class F, int R, class U> static void ap2(U & t, F && f, int fc) {
    seen.clear(); fncat = -1;
    CallApply<F, T, R>::go(std::forward<F>(f), static_cast<T &&>(t));
    CHECK(fncat == fc, "the function was called with value category " + std::to_string(fncat) + " instead of " + std::to_string(fc));
    CHECK(seen.size() == (std::tuple_size<U>::value), "the function received " + std::to_string(seen.size()) + " arguments");
    WantSeen<T, 0, std::tuple_size<U>::value == 0>::go(t); ++evals;
}
template <class T, int R, class U> static void ap1(U & t) {
    Rec<R> f; Rec<R> const cf{};
    ap2<T, Rec<R> &, R>(t, f, 0); ap2<T, Rec<R> const &, R>(t, cf, 1); ap2<T, Rec<R>, R>(t, std::move(f), 2); ap2<T, Rec<R> const, R>(t, std::move(cf), 3);
}
template <class L> static void ap() {
    typedef typename MakeSeq<Len<L>::n>::type Q; auto t = make(L(), Q()); typedef decltype(t) T;
    what = "apply to a tuple of " + Names<L>::get();
    ap1<T &, RVoid>(t); ap1<T const &, RVoid>(t); ap1<T, RVoid>(t); ap1<T, RInt>(t); ap1<T &, RLRef>(t); ap1<T, RCRef>(t); ap1<T &, RRRef>(t); ap1<T, RMo>(t); ap1<T const, RVoid>(t);
}
// every mixture of element kinds up to NMIX elements
template <class L, int N> struct Mix; template <class L> struct Leaf { static void go() { HT<L, Len<L>::n>::go(); ap<L>(); } };
template <class L> struct LeafR { static void go() { ap<L>(); } };
template <class... K, int N> struct Mix<List<K...>, N> { static void go() { Leaf<List<K...>>::go(); Mix<List<K..., KV>, N - 1>::go(); Mix<List<K..., KM>, N - 1>::go(); Mix<List<K..., KL>, N - 1>::go(); } };
template <class... K> struct Mix<List<K...>, 0> { static void go() { Leaf<List<K...>>::go(); } };
template <class L, int N> struct MixR; template <class... K, int N> struct MixR<List<K...>, N> { static void go() { LeafR<List<K...>>::go(); MixR<List<K..., KC>, N - 1>::go(); MixR<List<K..., KR>, N - 1>::go(); } };
template <class... K> struct MixR<List<K...>, 0> { static void go() { LeafR<List<K...>>::go(); } };
// ---------------------------------------------------------------- invoke
struct Base { int data = 5; Tr t; Base() : t(1) {}
    int f0() { fncat = 10; return 4711; } int fc() const { fncat = 11; return 4711; } int fl() & { fncat = 12; return 4711; } int fr() && { fncat = 13; return 4711; } int fcl() const & { fncat = 14; return 4711; }
    Tr & ref(Tr & a, Mo && b) { fncat = 15; see(a); see(std::move(b)); return a; } void v(Mo m) { fncat = 16; CHECK(m.id == 3, "the argument changed"); } int nx(int a) noexcept { fncat = 17; return 4700 + a; } int val(Tr a, Tr const & b) { fncat = 18; seen.push_back(Seen{a.id, a.copies * 10 + a.moves, 0}); see(b); return 4711; } };
struct Derived : Base { int more = 1; };
static int freef() { fncat = 20; return 4711; } static Tr & freer(Tr & a, Tr const & b, Mo && c, Tr d) { fncat = 21; see(a); see(b); see(std::move(c)); seen.push_back(Seen{d.id, d.copies * 10 + d.moves, 0}); return a; }
#define INV(expr, type, cond, fc) do { what = "invoke: " #expr; seen.clear(); fncat = -1; static_assert(std::is_same<decltype(expr), type>::value, "type of the result of " #expr); CHECK((cond), "the result is wrong"); CHECK(fncat == fc, "another function was called (" + std::to_string(fncat) + ")"); ++evals; ++nontriv; } while (0)
static void inv() {
    Base b; Base const cb; Derived d; Base * p = &b; Base const * cp = &cb; auto rw = std::ref(b); Tr a(1), k(2); Mo m(3); std::unique_ptr<Base> up(new Base);
    auto f0 = &Base::f0; auto fc = &Base::fc; auto fl = &Base::fl; auto fr = &Base::fr; auto fcl = &Base::fcl; auto nx = &Base::nx; auto const cf0 = f0; auto data = &Base::data; auto tt = &Base::t;
    INV(bd::invoke(f0, b), int, bd::invoke(f0, b) == 4711, 10); INV(bd::invoke(&Base::f0, b), int, bd::invoke(&Base::f0, b) == 4711, 10); INV(bd::invoke(cf0, b), int, bd::invoke(cf0, b) == 4711, 10); INV(bd::invoke(std::move(f0), b), int, bd::invoke(std::move(f0), b) == 4711, 10);
    INV(bd::invoke(f0, p), int, bd::invoke(f0, p) == 4711, 10); INV(bd::invoke(f0, &b), int, bd::invoke(f0, &b) == 4711, 10); INV(bd::invoke(f0, d), int, bd::invoke(f0, d) == 4711, 10); INV(bd::invoke(f0, Derived()), int, bd::invoke(f0, Derived()) == 4711, 10); INV(bd::invoke(f0, up), int, bd::invoke(f0, up) == 4711, 10);
    INV(bd::invoke(fc, b), int, bd::invoke(fc, b) == 4711, 11); INV(bd::invoke(fc, cb), int, bd::invoke(fc, cb) == 4711, 11); INV(bd::invoke(fc, cp), int, bd::invoke(fc, cp) == 4711, 11); INV(bd::invoke(fc, Base()), int, bd::invoke(fc, Base()) == 4711, 11);
    INV(bd::invoke(fl, b), int, bd::invoke(fl, b) == 4711, 12); INV(bd::invoke(fl, p), int, bd::invoke(fl, p) == 4711, 12); INV(bd::invoke(fr, Base()), int, bd::invoke(fr, Base()) == 4711, 13); INV(bd::invoke(fr, std::move(b)), int, bd::invoke(fr, std::move(b)) == 4711, 13); INV(bd::invoke(fcl, cb), int, bd::invoke(fcl, cb) == 4711, 14);
    INV(bd::invoke(nx, b, 11), int, bd::invoke(nx, b, 11) == 4711, 17);
#if __cplusplus >= 201703L
    INV(bd::invoke(f0, rw), int, bd::invoke(f0, rw) == 4711, 10);
#endif
    INV(bd::invoke(&Base::ref, b, a, std::move(m)), Tr &, &bd::invoke(&Base::ref, b, a, std::move(m)) == &a, 15); CHECK(seen.size() == 2 && seen[0].p == &a && seen[0].cat == 0 && seen[1].p == &m && seen[1].cat == 2, "the arguments of a member function changed");
    INV(bd::invoke(&Base::val, b, a, k), int, bd::invoke(&Base::val, b, a, k) == 4711, 18); CHECK(seen.size() == 2 && seen[0].id == 1 && seen[0].cat == 10 && seen[1].p == &k && !a.from, "the arguments of a member function changed");
    INV(bd::invoke(&Base::val, p, std::move(a), k), int, bd::invoke(&Base::val, p, std::move(a), k) == 4711, 18); CHECK(seen.size() == 2 && seen[0].cat == 1 && a.from, "a temporary was not moved into the argument of a member function"); a = Tr(1);
    what = "invoke: &Base::v"; fncat = -1; bd::invoke(&Base::v, b, std::move(m)); CHECK(fncat == 16 && m.from, "a move-only argument was not moved"); m = Mo(3); ++evals;
    // data members
    fncat = 0;
#define DAT(expr, type, cond) do { what = "invoke: " #expr; static_assert(std::is_same<decltype(expr), type>::value, "type of the result of " #expr); CHECK((cond), "the result is wrong"); ++evals; ++nontriv; } while (0)
    DAT(bd::invoke(data, b), int &, &bd::invoke(data, b) == &b.data); DAT(bd::invoke(data, cb), int const &, &bd::invoke(data, cb) == &cb.data); DAT(bd::invoke(data, p), int &, &bd::invoke(data, p) == &b.data); DAT(bd::invoke(data, cp), int const &, &bd::invoke(data, cp) == &cb.data); DAT(bd::invoke(tt, d), Tr &, &bd::invoke(tt, d) == &d.t); DAT(bd::invoke(&Base::data, std::move(b)), int &&, bd::invoke(&Base::data, std::move(b)) == 5); DAT(bd::invoke(data, up), int &, &bd::invoke(data, up) == &up->data);
    // functions
    int (&rf)() = freef; int (*pf)() = freef;
    INV(bd::invoke(freef), int, bd::invoke(freef) == 4711, 20); INV(bd::invoke(&freef), int, bd::invoke(&freef) == 4711, 20); INV(bd::invoke(rf), int, bd::invoke(rf) == 4711, 20); INV(bd::invoke(pf), int, bd::invoke(pf) == 4711, 20); INV(bd::invoke(std::move(pf)), int, bd::invoke(std::move(pf)) == 4711, 20);
    INV(bd::invoke(freer, a, k, std::move(m), k), Tr &, &bd::invoke(freer, a, k, std::move(m), k) == &a, 21); CHECK(seen.size() == 4 && seen[0].p == &a && seen[1].p == &k && seen[1].cat == 1 && seen[2].p == &m && seen[2].cat == 2 && seen[3].id == 2 && seen[3].cat == 10, "the arguments of a function changed");
    INV(bd::invoke(&freer, a, a, Mo(5), Tr(6)), Tr &, &bd::invoke(&freer, a, a, Mo(5), Tr(6)) == &a, 21); CHECK(seen[2].id == 5 && seen[3].id == 6 && seen[3].cat == 1, "the arguments of a function changed");
    // std::function, bind
    std::function<int(int)> sf = [](int i) { fncat = 22; return i + 1; }; auto bi = std::bind([](int i, int j) { fncat = 23; return i * 10 + j; }, std::placeholders::_2, std::placeholders::_1);
    INV(bd::invoke(sf, 4710), int, bd::invoke(sf, 4710) == 4711, 22); INV(bd::invoke(bi, 1, 471), int, bd::invoke(bi, 1, 471) == 4711, 23);
    auto mv = [](std::unique_ptr<int> q) { fncat = 24; return *q; }; INV(bd::invoke(mv, std::unique_ptr<int>(new int(4711))), int, bd::invoke(mv, std::unique_ptr<int>(new int(4711))) == 4711, 24);
}
template <class F, int R, class... A> static void inv1(F && f, int fc, A &&... a) {   // invoke with every category of function and argument
    seen.clear(); fncat = -1; static_assert(std::is_same<decltype(bd::invoke(std::forward<F>(f), std::forward<A>(a)...)), typename Ret<R>::type>::value, "type of the result");
    void const * ps[] = { 0, (void const *)&a... }; int cs[] = { 0, catof<A>()... }; int ids[] = { 0, idof(a)... };
    bd::invoke(std::forward<F>(f), std::forward<A>(a)...);
    CHECK(fncat == fc, "the function was called with value category " + std::to_string(fncat)); CHECK(seen.size() == sizeof...(A), "wrong number of arguments");
    for (size_t i = 0; i < seen.size(); ++i) CHECK(seen[i].p == ps[i + 1] && seen[i].cat == cs[i + 1] && seen[i].id == ids[i + 1], "argument " + std::to_string(i) + " arrived differently");
    ++evals; ++nontriv;
}
template <int R, class... A> static void inv2(A &&... a) { Rec<R> f; Rec<R> const cf{}; inv1<Rec<R> &, R>(f, 0, std::forward<A>(a)...); inv1<Rec<R> const &, R>(cf, 1, std::forward<A>(a)...); inv1<Rec<R>, R>(std::move(f), 2, std::forward<A>(a)...); inv1<Rec<R> const, R>(std::move(cf), 3, std::forward<A>(a)...); }
template <int N> struct InvArgs { template <class... A> static void go(A &&... a) { Tr x(1); Tr const c(2); Mo m(3); Tr const & cr = c;
    inv2<RVoid>(std::forward<A>(a)...); inv2<RLRef>(std::forward<A>(a)...); inv2<RMo>(std::forward<A>(a)...);
    InvArgs<N - 1>::go(std::forward<A>(a)..., x); InvArgs<N - 1>::go(std::forward<A>(a)..., cr); InvArgs<N - 1>::go(std::forward<A>(a)..., std::move(m)); InvArgs<N - 1>::go(std::forward<A>(a)..., std::move(c)); } };
template <> struct InvArgs<0> { template <class... A> static void go(A &&... a) { inv2<RVoid>(std::forward<A>(a)...); inv2<RRRef>(std::forward<A>(a)...); inv2<RInt>(std::forward<A>(a)...); } };
// apply with member pointers and functions
static void apm() {
    what = "apply with a member function"; Base b; Tr a(1); Mo m(3);
    CHECK(bd::apply(&Base::f0, std::tuple<Base &>(b)) == 4711 && fncat == 10, "wrong result"); CHECK(bd::apply(&Base::fr, std::tuple<Base>(Base())) == 4711 && fncat == 13, "wrong result"); CHECK(bd::apply(&Base::nx, std::make_tuple(&b, 11)) == 4711, "wrong result");
    seen.clear(); CHECK(&bd::apply(&Base::ref, std::forward_as_tuple(b, a, std::move(m))) == &a && seen[0].p == &a && seen[1].p == &m && seen[1].cat == 2, "wrong result"); CHECK(bd::apply(&Base::data, std::tuple<Base *>(&b)) == 5, "wrong result");
    CHECK(bd::apply(freef, std::tuple<>()) == 4711, "wrong result"); std::pair<int, int> pr(471, 1); CHECK(bd::apply([](int i, int j) { return i * 10 + j; }, pr) == 4711, "wrong result"); evals += 7; nontriv += 7;
}
// ---------------------------------------------------------------- exchange
static void exch() {
    what = "exchange";
    { Tr t(1), n(2); Tr o = bd::exchange(t, n); CHECK(o.id == 1 && !o.from && t.id == 2 && n.id == 2 && !n.from && o.copies == 0 && t.copies == 1, "exchange with an lvalue"); }
    { Tr t(1); Tr n(2); Tr o = bd::exchange(t, std::move(n)); CHECK(o.id == 1 && t.id == 2 && n.from && t.copies == 0 && o.copies == 0, "exchange with a temporary"); }
    { Tr t(1); Tr const n(2); Tr o = bd::exchange(t, n); CHECK(o.id == 1 && t.id == 2 && t.copies == 1, "exchange with a constant"); }
    { Mo t(1); Mo o = bd::exchange(t, Mo(2)); CHECK(o.id == 1 && t.id == 2 && !t.from, "exchange of a move-only value"); }
    { int i = 1; long v = 2; CHECK(bd::exchange(i, v) == 1 && i == 2, "exchange with another type"); CHECK((bd::exchange(i, {}) == 2 && i == 0), "exchange with an empty initialiser"); static_assert(std::is_same<decltype(bd::exchange(i, v)), int>::value, "type"); }
    { int x = 3; int * p = &x; CHECK(bd::exchange(p, nullptr) == &x && p == nullptr, "exchange of a pointer"); void * q = &x; CHECK(bd::exchange(q, nullptr) == &x && !q, "exchange of a pointer"); }
    { std::unique_ptr<int> u(new int(1)); auto o = bd::exchange(u, nullptr); CHECK(*o == 1 && !u, "exchange of a unique_ptr"); auto o2 = bd::exchange(o, std::unique_ptr<int>(new int(2))); CHECK(*o2 == 1 && *o == 2, "exchange of a unique_ptr"); }
    { std::string s = "a"; CHECK(bd::exchange(s, "bc") == "a" && s == "bc", "exchange with a literal"); }
    { for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { int t = a; int o = bd::exchange(t, b); CHECK(o == a && t == b, "exchange of integers"); ++evals; } }
    evals += 12; nontriv += 21;
}
// ---------------------------------------------------------------- integer sequences
template <std::size_t... I> struct SS {}; template <std::size_t N, std::size_t... I> struct Mk : Mk<N - 1, N - 1, I...> {}; template <std::size_t... I> struct Mk<0, I...> { typedef bd::index_sequence<I...> type; };
template <int N, class... T> struct Rep : Rep<N - 1, T..., char> {}; template <class... T> struct Rep<0, T...> { typedef bd::index_sequence_for<T...> type; };
template <int N> struct IS { static void go() { static_assert(std::is_same<bd::make_index_sequence<N>, typename Mk<N>::type>::value, "make_index_sequence"); static_assert(std::is_same<typename Rep<N>::type, typename Mk<N>::type>::value, "index_sequence_for"); evals += 2; typeonly += 2; ++nontriv; IS<N - 1>::go(); } };
template <> struct IS<-1> { static void go() {} };
// ---------------------------------------------------------------- disable_overload
template <class X, class Y> static auto dis(int) -> decltype(std::declval<bd::disable_overload<X, Y> *>(), true) { return false; } template <class X, class Y> static bool dis(...) { return true; }
template <class Y> static void dis4(bool d, char const * n) { what = n; CHECK((dis<Base, Y>(0) == d), "disable_overload"); CHECK((dis<Base, Y &>(0) == d), "disable_overload of a reference"); CHECK((dis<Base, Y const &>(0) == d), "disable_overload of a const reference"); CHECK((dis<Base, Y &&>(0) == d), "disable_overload of an rvalue reference"); CHECK((dis<Base, Y const>(0) == d), "disable_overload of a const"); CHECK((dis<Base, Y volatile &&>(0) == d), "disable_overload of a volatile"); evals += 6; typeonly += 6; nontriv += 6; }
struct Unrelated {}; struct Conv { operator Base() const { return Base(); } }; struct Priv : private Base {};
int main() {
    Mix<List<>, NMIX>::go(); MixR<List<>, 4>::go();
    { typedef List<KV, KV, KV, KV, KV, KV, KV, KV> L8; HT<L8, 8>::go(); ap<L8>(); typedef List<KM, KV, KM, KV, KL, KM> L6; HT<L6, 6>::go(); ap<L6>(); }
    { what = "head and tail with conversions"; std::tuple<long, double> t; std::tuple<int, float, char> s(7, 0.5f, 'c'); bd::head(t) = s; CHECK(std::get<0>(t) == 7 && std::get<1>(t) == 0.5, "converted values"); std::tuple<std::string> u; std::tuple<int, char const *> w(1, "xyz"); bd::tail(u) = w; CHECK(std::get<0>(u) == "xyz", "converted values"); bd::tail(u) = std::make_tuple(2, "ab"); CHECK(std::get<0>(u) == "ab", "converted values"); evals += 3; }
    { what = "head and tail into references"; Tr a(0), b(0); std::tuple<Tr &, Tr &> t(a, b); std::tuple<Tr, Tr, Tr> s(Tr(1), Tr(2), Tr(3)); bd::head(t) = s; CHECK(a.id == 1 && b.id == 2, "values assigned through references"); bd::tail(t) = s; CHECK(a.id == 2 && b.id == 3 && !std::get<1>(s).from, "values assigned through references"); evals += 2; }
    what = "invoke"; inv(); what = "invoke with all categories"; InvArgs<INVN>::go(); apm(); exch(); IS<70>::go();
    dis4<Base>(true, "the class itself"); dis4<Derived>(true, "a derived class"); dis4<Unrelated>(false, "an unrelated class"); dis4<int>(false, "int"); dis4<Conv>(false, "a convertible class"); dis4<int (*)()>(false, "a function pointer"); dis4<Base *>(false, "a pointer to the class");
    printf("{\"evaluations\":%ld,\"distinct_nontrivial\":%ld,\"compared_values\":%ld,\"samples\":[\"apply to every mixture of value/move-only/reference elements up to %d elements, x4 function categories, x4 tuple categories, x6 results\",\"invoke with every combination of 4 argument categories up to %d arguments\"]}\n", evals, evals - typeonly, nontriv, NMIX, INVN);
    return 0;
}
