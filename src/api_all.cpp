// Everything documented as available, used once in each build configuration. FIRST=n includes header n first.
#if FIRST == 1
#include <boost/context/continuation.hpp>
#elif FIRST == 2
#include <boost/context/stack_traits.hpp>
#elif FIRST == 3
#include <boost/context/protected_fixedsize_stack.hpp>
#elif FIRST == 4
#include <boost/context/pooled_fixedsize_stack.hpp>
#elif FIRST == 5
#include <boost/context/preallocated.hpp>
#elif FIRST == 6
#include <boost/context/stack_context.hpp>
#elif FIRST == 7
#include <boost/context/flags.hpp>
#endif
#include <boost/context/fiber.hpp>
#include <boost/context/continuation.hpp>
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/preallocated.hpp>
#include <boost/context/stack_context.hpp>
#include <boost/context/stack_traits.hpp>
#ifdef BOOST_USE_SEGMENTED_STACKS
#include <boost/context/segmented_stack.hpp>
#endif
#include <cstdio>
#include <sstream>
#include <string>
#include <utility>
#include <type_traits>
#include <vector>
#include <functional>
#include <memory>
namespace ctx = boost::context;
static int bad; static char msg[200];
#define CK(x) do { if (!(x) && !bad) { bad = 1; snprintf(msg, sizeof msg, "line %d: %s", __LINE__, #x); } } while (0)
static long n;
static int calls;
struct OwnTraits : std::char_traits<char> {};
template <class C> static C plain(C &&c) { ++calls; return std::move(c); }
template <class C> struct Functor { C operator()(C &&c) { ++calls; return std::move(c); } };
template <class C> struct ConstFunctor { C operator()(C &&c) const { ++calls; return std::move(c); } };
template <class C, class... A> struct Make { static C mk(A... a); };
template <class F> static ctx::fiber mk(ctx::fiber *, F &&f) { return ctx::fiber(std::forward<F>(f)); }
template <class S, class F> static ctx::fiber mks(ctx::fiber *, S &&s, F &&f) { return ctx::fiber(std::allocator_arg, std::forward<S>(s), std::forward<F>(f)); }
template <class S, class F> static ctx::fiber mkp(ctx::fiber *, ctx::preallocated p, S &&s, F &&f) { return ctx::fiber(std::allocator_arg, p, std::forward<S>(s), std::forward<F>(f)); }
template <class F> static ctx::continuation mk(ctx::continuation *, F &&f) { return ctx::callcc(std::forward<F>(f)); }
template <class S, class F> static ctx::continuation mks(ctx::continuation *, S &&s, F &&f) { return ctx::callcc(std::allocator_arg, std::forward<S>(s), std::forward<F>(f)); }
template <class S, class F> static ctx::continuation mkp(ctx::continuation *, ctx::preallocated p, S &&s, F &&f) { return ctx::callcc(std::allocator_arg, p, std::forward<S>(s), std::forward<F>(f)); }
static ctx::fiber fin(ctx::fiber c) { while (c) c = std::move(c).resume(); return c; }
static ctx::continuation fin(ctx::continuation c) { while (c) c = c.resume(); return c; }
template <class C> static void api() {
  C *t = nullptr;
  static_assert(std::is_nothrow_move_constructible<C>::value && std::is_nothrow_move_assignable<C>::value && std::is_nothrow_default_constructible<C>::value, "");
  static_assert(!std::is_copy_constructible<C>::value && !std::is_copy_assignable<C>::value, "");
  static_assert(!std::is_convertible<C, bool>::value && std::is_constructible<bool, C>::value, "");
  calls = 0;
  fin(mk(t, [](C &&c) { ++calls; return std::move(c); }));
  fin(mk(t, plain<C>)); fin(mk(t, &plain<C>)); fin(mk(t, Functor<C>())); Functor<C> f; fin(mk(t, f)); const ConstFunctor<C> cf = ConstFunctor<C>(); fin(mk(t, cf));
  std::function<C(C &&)> sf = plain<C>; fin(mk(t, sf)); fin(mk(t, std::move(sf)));
  fin(mk(t, std::bind([](C &&c) { ++calls; return std::move(c); }, std::placeholders::_1)));
  fin(mks(t, ctx::fixedsize_stack(), plain<C>)); fin(mks(t, ctx::fixedsize_stack(65536), plain<C>)); fin(mks(t, ctx::default_stack(), Functor<C>()));
  ctx::protected_fixedsize_stack ps; ctx::pooled_fixedsize_stack po(65536); ctx::protected_fixedsize_stack ps2(65536);
  fin(mks(t, ps, plain<C>)); fin(mks(t, po, plain<C>)); fin(mks(t, ps2, plain<C>)); fin(mks(t, ctx::pooled_fixedsize_stack(ctx::stack_traits::default_size(), 4, 8), plain<C>));
  fin(mks(t, ctx::basic_fixedsize_stack<ctx::stack_traits>(65536), plain<C>)); fin(mks(t, ctx::basic_protected_fixedsize_stack<ctx::stack_traits>(65536), plain<C>)); fin(mks(t, ctx::basic_pooled_fixedsize_stack<ctx::stack_traits>(65536), plain<C>));
#ifdef BOOST_USE_SEGMENTED_STACKS
  fin(mks(t, ctx::segmented_stack(65536), plain<C>));
#endif
  { ctx::fixedsize_stack al(131072); ctx::stack_context sc = al.allocate(); void *sp = static_cast<char *>(sc.sp) - 64; std::size_t sz = sc.size - 64; fin(mkp(t, ctx::preallocated(sp, sz, sc), al, plain<C>)); }
#ifdef BOOST_USE_SEGMENTED_STACKS
  CK(calls == 21);
#else
  CK(calls == 20);
#endif
  n += calls;
  C e, e2; CK(!e); CK(!(e < e2)); std::ostringstream os; os << e; CK(os.str() == "{not-a-context}");
  std::wostringstream ws; ws << e; CK(ws.str() == L"{not-a-context}");
  CK(e == e2 && !(e != e2) && !(e > e2) && e <= e2 && e >= e2);
  std::basic_ostringstream<char, OwnTraits> ts; ts << e << e2; CK(std::string(ts.str().c_str()) == "{not-a-context}{not-a-context}");
  { C a2 = mk(t, [](C &&c) { c = std::move(c).resume(); return std::move(c); }); ts.str(std::basic_string<char, OwnTraits>()); ts << a2; CK(std::string(ts.str().c_str()) != "{not-a-context}"); CK(a2 == a2 && a2 != e && (a2 < e) != (a2 > e) && a2 >= a2 && a2 <= a2); a2 = fin(std::move(a2)); }
  C a = mk(t, [](C &&c) { c = std::move(c).resume(); return std::move(c); });
  CK(bool(a)); os.str(""); os << a; CK(os.str() != "{not-a-context}"); a.swap(e); CK(!a && e); using std::swap; swap(a, e); CK(a && !e); e = std::move(a); CK(!a && e);
  e = std::move(e).resume_with([](C &&c) { ++calls; return std::move(c); }); e = fin(std::move(e));
  std::vector<C> v; for (int i = 0; i < 4; i++) v.push_back(mk(t, [](C &&c) { c = std::move(c).resume(); return std::move(c); })); v.erase(v.begin()); v.clear();
  n += 8;
}
int main() {
  api<ctx::fiber>(); api<ctx::continuation>();
  static_assert(std::is_same<ctx::fiber, ctx::fiber_context>::value, "");
  { ctx::continuation c = ctx::callcc([](ctx::continuation &&x) { x = x.resume(); return std::move(x); }); c = c.resume(); c = ctx::callcc([](ctx::continuation &&x) { x = x.resume(); return std::move(x); }); c = c.resume_with([](ctx::continuation &&x) { return std::move(x); }); CK(!c); }
  CK(ctx::stack_traits::page_size() > 0); CK(ctx::stack_traits::default_size() >= ctx::stack_traits::minimum_size()); (void)ctx::stack_traits::is_unbounded(); if (!ctx::stack_traits::is_unbounded()) CK(ctx::stack_traits::maximum_size() > 0);
  printf("{\"evaluations\":%ld,\"samples\":[\"all documented entry points\"]", n);
  if (bad) printf(",\"violation\":{\"message\":\"%s\"}", msg);
  printf("}\n");
  return bad;
}
