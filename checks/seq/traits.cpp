// lazy_conditional, lazy_switch and type_traits: every condition vector, every cv/ref combination.
#include <dice/template-library/lazy_conditional.hpp>
#include <dice/template-library/type_traits.hpp>
#include "../../engine/mcseq.hpp"
#include <memory>
#include <utility>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
#ifndef PART
#define PART 0
#endif
#if PART == 0
// ---- selection: a provider that must not be looked at is ill-formed when instantiated, incomplete, or without ::type ----
template<typename T> struct poison { using type = typename T::nothing; static_assert(sizeof(T) == 0, "a branch that was not chosen is instantiated"); }; struct incomplete; struct no_type {};
template<int k> struct result; template<int k, int form> struct yields { using type = result<k>; }; template<int k> struct yields<k, 1> { using type = result<k> &; }; template<int k> struct yields<k, 2> { using type = void; }; template<int k> struct yields<k, 3> { using type = yields<k + 1000, 0>; }; // a type that is itself a provider
template<int how> struct bad_; template<> struct bad_<0> { using t = poison<int>; }; template<> struct bad_<1> { using t = incomplete; }; template<> struct bad_<2> { using t = no_type; };
template<bool here, int k, int form, int how> using provider = typename std::conditional_t<here, std::type_identity<yields<k, form>>, std::type_identity<typename bad_<how>::t>>::type;
constexpr int first_set(int mask, int n) { for (int i = 0; i < n; ++i) if ((mask >> i) & 1) return i; return n; }
template<int n, int mask, int form, int how> static void sw() {
	constexpr int c = first_set(mask, n); using want = typename yields<c, form>::type;
	[]<int... i>(std::integer_sequence<int, i...>) {
		using D = dtl::lazy_switch_default_t<provider<c == n, n, form, how>, dtl::case_<((mask >> i) & 1) != 0, provider<i == c, i, form, how>>...>; MC_CHECK((std::is_same_v<D, want>), "lazy_switch_default with conditions %x of %d selects another type", mask, n);
		using D2 = typename dtl::lazy_switch_default<provider<c == n, n, form, how>, dtl::case_<((mask >> i) & 1) != 0, provider<i == c, i, form, how>>...>::type; MC_CHECK((std::is_same_v<D2, want>), "lazy_switch_default");
		if constexpr (c < n) { using S = dtl::lazy_switch_t<dtl::case_<((mask >> i) & 1) != 0, provider<i == c, i, form, how>>...>; MC_CHECK((std::is_same_v<S, want>), "lazy_switch with conditions %x of %d selects another type", mask, n); }
		// the same provider type in several cases
		using R = dtl::lazy_switch_default_t<yields<77, 0>, dtl::case_<((mask >> i) & 1) != 0, yields<5, 0>>...>; MC_CHECK((std::is_same_v<R, result<(c < n ? 5 : 77)>>), "lazy_switch_default with equal providers");
	}(std::make_integer_sequence<int, n>{});
}
template<int form, int how> static void cond() {
	using T = dtl::lazy_conditional_t<true, yields<1, form>, typename bad_<how>::t>; using F = dtl::lazy_conditional_t<false, typename bad_<how>::t, yields<2, form>>; MC_CHECK((std::is_same_v<T, typename yields<1, form>::type> && std::is_same_v<F, typename yields<2, form>::type>), "lazy_conditional");
	// nested selection
	using N = dtl::lazy_conditional_t<true, dtl::lazy_conditional<false, typename bad_<how>::t, yields<3, form>>, dtl::lazy_switch<dtl::case_<true, typename bad_<how>::t>>>; MC_CHECK((std::is_same_v<N, typename yields<3, form>::type>), "nested lazy_conditional");
	using M = dtl::lazy_switch_default_t<dtl::lazy_switch_default<yields<4, form>, dtl::case_<false, typename bad_<how>::t>>, dtl::case_<false, dtl::lazy_switch_default<typename bad_<how>::t>>>; MC_CHECK((std::is_same_v<M, typename yields<4, form>::type>), "nested lazy_switch_default");
}
template<int n, int form, int how> static void all_masks(int mask) { [&]<int... m>(std::integer_sequence<int, m...>) { ((mask == m ? sw<n, m, form, how>() : void()), ...); }(std::make_integer_sequence<int, 1 << n>{}); }
template<int n> static void selection() { int mask = choose(1 << n), form = choose(4), how = choose(3); op("conditions %x of %d, result form %d, unchosen providers %d", mask, n, form, how); state((u64) ((n * 64 + mask) * 12 + form * 3 + how));
	[&]<int... f>(std::integer_sequence<int, f...>) { ((form == f ? (how == 0 ? all_masks<n, f, 0>(mask) : how == 1 ? all_masks<n, f, 1>(mask) : all_masks<n, f, 2>(mask)) : void()), ...); }(std::make_integer_sequence<int, 4>{});
	if (mask == 0) [&]<int... f>(std::integer_sequence<int, f...>) { ((form == f ? (how == 0 ? cond<f, 0>() : how == 1 ? cond<f, 1>() : cond<f, 2>()) : void()), ...); }(std::make_integer_sequence<int, 4>{}); }
// failure is reported, not a hard error, when the chosen provider has no type
template<typename T> concept selectable = requires { typename dtl::lazy_switch_default_t<yields<0, 0>, dtl::case_<true, T>>; }; static_assert(selectable<yields<1, 0>> && !selectable<no_type>);

#elif PART == 1
// ---- traits over all cv/ref combinations ----
struct q { bool c, v; int r; bool operator==(q const &) const = default; }; // const, volatile, reference kind (0 none, 1 &, 2 &&)
template<typename T> constexpr q of() { using U = std::remove_reference_t<T>; return {std::is_const_v<U>, std::is_volatile_v<U>, std::is_lvalue_reference_v<T> ? 1 : std::is_rvalue_reference_v<T> ? 2 : 0}; }
template<typename B, int k> struct mk; // k = 0..11
template<typename B, int k> requires (k < 4) struct mk<B, k> { using t = std::conditional_t<k & 1, std::conditional_t<k & 2, B const volatile, B const>, std::conditional_t<k & 2, B volatile, B>>; };
template<typename B, int k> requires (k >= 4 && k < 8) struct mk<B, k> { using t = typename mk<B, k - 4>::t &; }; template<typename B, int k> requires (k >= 8) struct mk<B, k> { using t = typename mk<B, k - 8>::t &&; };
template<typename F, typename T> static void copies() {
	constexpr q f = of<F>(), t = of<T>(); using base = std::remove_all_extents_t<std::remove_cvref_t<T>>; auto fit = [&](q got, q want, char const *what) { MC_CHECK(got == want, "%s: const %d volatile %d reference %d instead of %d %d %d", what, got.c, got.v, got.r, want.c, want.v, want.r); };
	auto collapse = [](int a, int b) { return a == 0 ? b : b == 0 ? a : a == 1 || b == 1 ? 1 : 2; };
	q w = t; bool top = f.r == 0 && t.r == 0; // qualifiers of a reference's target are not qualifiers of the reference
	if (top) w.c |= f.c; fit(of<dtl::copy_const_t<F, T>>(), w, "copy_const"); w = t; if (top) w.v |= f.v; fit(of<dtl::copy_volatile_t<F, T>>(), w, "copy_volatile"); w = t; if (top) { w.c |= f.c; w.v |= f.v; } fit(of<dtl::copy_cv_t<F, T>>(), w, "copy_cv");
	w = t; w.r = collapse(f.r, t.r); fit(of<dtl::copy_reference_t<F, T>>(), w, "copy_reference"); w = t; if (t.r == 0) { w.c |= f.c; w.v |= f.v; } w.r = collapse(f.r, t.r); fit(of<dtl::copy_cvref_t<F, T>>(), w, "copy_cvref");
	MC_CHECK((std::is_same_v<base, std::remove_all_extents_t<std::remove_cvref_t<dtl::copy_cvref_t<F, T>>>> && std::is_same_v<base, std::remove_all_extents_t<std::remove_cvref_t<dtl::copy_const_t<F, T>>>> && std::is_same_v<base, std::remove_all_extents_t<std::remove_cvref_t<dtl::copy_reference_t<F, T>>>>), "another type");
	MC_CHECK((std::is_same_v<typename dtl::copy_const<F, T>::type, dtl::copy_const_t<F, T>> && std::is_same_v<typename dtl::copy_cvref<F, T>::type, dtl::copy_cvref_t<F, T>>), "aliases");
}
struct cls { int v; }; enum en { e0 };
template<typename FB, typename TB> static void copy_table() { int f = choose(12), t = choose(12); op("from %d to %d", f, t); state((u64) (f * 12 + t));
	[&]<int... i>(std::integer_sequence<int, i...>) { ((f * 12 + t == i ? copies<typename mk<FB, i / 12>::t, typename mk<TB, i % 12>::t>() : void()), ...); }(std::make_integer_sequence<int, 144>{}); }
static_assert(std::is_same_v<dtl::copy_cvref_t<int const *, long>, long> && std::is_same_v<dtl::copy_cvref_t<int *const &, long>, long const &> && std::is_same_v<dtl::copy_const_t<int const, void>, void const> && std::is_same_v<dtl::copy_cv_t<void volatile, long>, long volatile> && std::is_same_v<dtl::copy_cvref_t<int const (&)[3], long>, long const &> && std::is_same_v<dtl::copy_cvref_t<int const, long[2]>, long const[2]> && std::is_same_v<dtl::copy_cvref_t<void (*)(), char>, char> && std::is_same_v<dtl::copy_cvref_t<void (&)(), char>, char &>);
// forward_like: type and object
template<typename T, bool cu> static void like() { using U = std::conditional_t<cu, cls const, cls>; U u{4}; using R = decltype(dtl::forward_like<T>(u)); MC_CHECK((std::is_same_v<R, decltype(std::forward_like<T>(u))>), "forward_like yields another type"); constexpr q t = of<T>(); q w{cu || t.c, false, t.r == 1 ? 1 : 2}; MC_CHECK((of<R>() == w), "forward_like yields another type than defined"); auto &&r = dtl::forward_like<T>(u); MC_CHECK((void const *) &r == (void const *) &u, "forward_like yields another object"); auto &&r2 = dtl::forward_like<T>(std::move(u)); MC_CHECK((void const *) &r2 == (void const *) &u && (std::is_same_v<decltype(dtl::forward_like<T>(std::move(u))), R>), "forward_like of an rvalue"); static_assert(noexcept(dtl::forward_like<T>(u))); }
static void likes() { int t = choose(12), u = choose(2); op("like %d of %d", t, u); state((u64) (t * 2 + u)); [&]<int... i>(std::integer_sequence<int, i...>) { ((t == i ? (u ? like<typename mk<cls, i>::t, true>() : like<typename mk<cls, i>::t, false>()) : void()), ...); }(std::make_integer_sequence<int, 12>{}); }

#endif
#if PART >= 1
// ---- is_strict_invocable_r against the standard traits ----
struct mo { mo(mo &&) = default; }; struct pinned { pinned(pinned &&) = delete; };
template<int k> struct par_; template<> struct par_<0> { using t = int; }; template<> struct par_<1> { using t = int &; }; template<> struct par_<2> { using t = int const &; }; template<> struct par_<3> { using t = int &&; }; template<> struct par_<4> { using t = mo; }; template<> struct par_<5> { using t = mo &; }; template<> struct par_<6> { using t = mo &&; }; template<> struct par_<7> { using t = long; }; template<> struct par_<8> { using t = int const &&; }; template<> struct par_<9> { using t = pinned; }; template<> struct par_<10> { using t = void; };
template<int k> using par = typename par_<k>::t;
template<typename R, typename P> struct call_plain { R operator()(P); }; template<typename R, typename P> struct call_const { R operator()(P) const; }; template<typename R, typename P> struct call_lref { R operator()(P) &; }; template<typename R, typename P> struct call_rref { R operator()(P) &&; }; template<typename R, typename P> struct call_cref { R operator()(P) const &; }; template<typename R, typename P> struct call_crref { R operator()(P) const &&; };
template<typename R, typename F, typename... A> constexpr bool want() { if constexpr (std::is_invocable_v<F, A...>) return std::is_same_v<std::invoke_result_t<F, A...>, R>; else return false; }
static long cells;
template<typename R, typename F, typename... A> static void cell() { ++cells; MC_CHECK((dtl::is_strict_invocable_r_v<R, F, A...> == want<R, F, A...>() && dtl::is_strict_invocable_r<R, F, A...>::value == want<R, F, A...>()), "is_strict_invocable_r is %d, %d expected", dtl::is_strict_invocable_r_v<R, F, A...>, want<R, F, A...>()); }
template<typename R, typename F, typename A> static void all_results() { cell<R, F, A>(); cell<std::remove_cvref_t<R>, F, A>(); cell<std::add_lvalue_reference_t<R>, F, A>(); cell<std::conditional_t<std::is_void_v<R>, int, R const>, F, A>(); cell<std::conditional_t<std::is_void_v<R>, int, void>, F, A>(); cell<std::conditional_t<std::is_same_v<R, int>, long, int>, F, A>(); }
template<typename R, typename F> static void all_args() { [&]<int... a>(std::integer_sequence<int, a...>) { (all_results<R, F, par<a>>(), ...); }(std::make_integer_sequence<int, 9>{}); cell<R, F>(); cell<R, F, int, int>(); }
#if PART >= 2
template<int r, int p> static void callables(int kind) {
	using R = par<r>; using P = par<p>;
	switch (kind) { case 0: return all_args<R, R (*)(P)>(); case 1: return all_args<R, R(P)>(); case 2: return all_args<R, R (&)(P)>(); case 3: all_args<R, call_plain<R, P>>(); all_args<R, call_plain<R, P> const>(); return all_args<R, call_plain<R, P> &>(); case 4: all_args<R, call_const<R, P> &>(); return all_args<R, call_const<R, P> const>(); case 5: all_args<R, call_lref<R, P>>(); return all_args<R, call_lref<R, P> &>(); case 6: all_args<R, call_rref<R, P>>(); return all_args<R, call_rref<R, P> &>(); case 7: all_args<R, call_cref<R, P> const &>(); return all_args<R, call_crref<R, P> &>(); }
}
static void strict() { constexpr int rs[] = {0, 1, 4, 9, 10, 8}; constexpr int r = rs[PART - 2]; int p = choose(9), kind = choose(8); op("result %d, parameter %d, callable %d", r, p, kind); state((u64) (r * 100 + p * 10 + kind));
	[&]<int... i>(std::integer_sequence<int, i...>) { ((p == i ? callables<r, i>(kind) : void()), ...); }(std::make_integer_sequence<int, 9>{}); }
#else
struct obj { int m; mo n; int f(int); int g(int &) const &; mo h() &&; }; struct derived : obj {};
template<typename F> static void members() { cell<int, F, obj, int>(); cell<int, F, obj &, int>(); cell<int, F, obj &, int &>(); cell<int, F, obj *, int>(); cell<int, F, obj const *, int>(); cell<int, F, obj const *, int &>(); cell<int, F, std::unique_ptr<obj>, int>(); cell<int, F, std::reference_wrapper<obj>, int>(); cell<int, F, derived, int>(); cell<int, F, int, int>(); cell<int &, F, obj &>(); cell<int &&, F, obj>(); cell<int const &, F, obj const &>(); cell<int &, F, obj *>(); cell<int &, F, std::shared_ptr<obj>>(); cell<int, F, obj>(); cell<mo, F, obj>(); cell<mo, F, obj &>(); cell<mo, F, derived>(); cell<mo &&, F, obj>(); cell<mo &, F, obj &>(); }
static void member_pointers() { int k = choose(5); op("member pointer %d", k); state((u64) k); switch (k) { case 0: return members<int obj::*>(); case 1: return members<mo obj::*>(); case 2: return members<int (obj::*)(int)>(); case 3: return members<int (obj::*)(int &) const &>(); case 4: return members<mo (obj::*)() &&>(); } }
template<typename R> static void nullary() { auto l = []() -> R { std::abort(); }; using L = decltype(l); cell<R, L>(); cell<R, L &>(); cell<R, L const &>(); cell<void, L>(); cell<int, L>(); cell<long, L>(); cell<R, R()>(); cell<R, R() noexcept>(); cell<R, L, int>(); }
static void nullaries() { op("nullary callables"); state(1ull); nullary<void>(); nullary<int>(); nullary<int &>(); nullary<int const>(); nullary<mo>(); nullary<pinned>(); nullary<long &&>(); cell<void, int>(); cell<int, int *>(); cell<void, void>(); cell<void, std::nullptr_t>(); struct over { int operator()(int) const; long operator()(long) const; int &operator()() &; int operator()() &&; }; cell<int, over, int>(); cell<long, over, long>(); cell<long, over, int>(); cell<int &, over &>(); cell<int, over>(); cell<int, over &>(); }

// ---- zero-sized types ----
struct z0 {}; struct z1 final {}; struct z2 : z0 { void f(); static int s; }; struct z3 { z3(int); z3(z3 const &) = delete; ~z3(); }; struct n0 { char c; }; struct n1 { virtual ~n1(); }; struct n2 : z0 { int v; }; struct n3 { z0 a; }; template<typename> struct ztempl {}; union zu {}; struct bits { unsigned x : 1; };
static void zst() { op("zero-sized types"); state(1ull); auto is = [](bool got, bool want, char const *what) { MC_CHECK(got == want, "is_zst of %s is %d", what, got); };
	is(dtl::is_zst_v<z0>, true, "an empty class"); is(dtl::is_zst_v<z1>, true, "a final empty class"); is(dtl::is_zst_v<z2>, true, "a class derived from an empty class"); is(dtl::is_zst_v<z3>, true, "an empty class with special members"); is(dtl::is_zst_v<ztempl<int>>, true, "an empty template"); is(dtl::is_zst_v<decltype([] {})>, true, "a captureless lambda"); is(dtl::is_zst_v<std::integral_constant<int, 4>>, true, "integral_constant"); is(dtl::is_zst_v<z0 const>, true, "a const empty class"); is(dtl::is_zst_v<std::allocator<int>>, true, "std::allocator");
	is(dtl::is_zst_v<void>, false, "void"); is(dtl::is_zst_v<n0>, false, "a class with a member"); is(dtl::is_zst_v<n1>, false, "a polymorphic class"); is(dtl::is_zst_v<n2>, false, "a derived class with a member"); is(dtl::is_zst_v<char>, false, "char"); is(dtl::is_zst_v<int>, false, "int"); is(dtl::is_zst_v<u64>, false, "an 8-byte integer"); is(dtl::is_zst_v<void *>, false, "a pointer"); is(dtl::is_zst_v<z0 &>, false, "a reference"); is(dtl::is_zst_v<z0[1]>, false, "an array"); is(dtl::is_zst_v<bits>, false, "a bit field"); is(dtl::is_zst_v<en>, false, "an enum"); is(dtl::is_zst_v<bool>, false, "bool"); int x = 0; auto l = [x] { return x; }; is(dtl::is_zst_v<decltype(l)>, false, "a lambda with a capture"); is(dtl::is_zst_v<void (*)()>, false, "a function pointer"); is(dtl::is_zst_v<int z0::*>, false, "a member pointer");
	is(dtl::is_zst<z0>::value && std::is_base_of_v<std::true_type, dtl::is_zst<z0>>, true, "the trait"); }
// ---- DICE_MOVE_IF_VALUE ----
struct tr { int v = 5; mutable int moves = 0; tr() = default; tr(tr const &o) : v(o.v) {} tr(tr &&o) : v(o.v) { o.v = -1; } };
struct both_ways { tr val; tr &ref; tr const &cref; };
template<typename T> static void mv_one(bool moves) { tr o; std::conditional_t<std::is_reference_v<T>, tr &, tr> store = o; (void) store; T x = static_cast<T>(o); decltype(auto) y = DICE_MOVE_IF_VALUE(x);
	if constexpr (std::is_reference_v<T>) { static_assert(std::is_same_v<decltype(y), T>); MC_CHECK(&y == &o, "another object"); } else if constexpr (std::is_const_v<T>) { static_assert(!std::is_rvalue_reference_v<decltype(y)>); } else { static_assert(std::is_same_v<decltype(y), T &&>); MC_CHECK(&y == &x, "another object"); }
	tr t = DICE_MOVE_IF_VALUE(x); MC_CHECK(t.v == 5 && (const_cast<tr const &>(x).v == (moves ? -1 : 5)), "DICE_MOVE_IF_VALUE %s", moves ? "did not move" : "moved"); }
static void mv() { int k = choose(7); op("kind %d", k); state((u64) k); switch (k) { case 0: return mv_one<tr>(true); case 1: return mv_one<tr const>(false); case 2: return mv_one<tr &>(false); case 3: return mv_one<tr const &>(false); case 4: return mv_one<tr &&>(true); case 5: return mv_one<tr const &&>(false);
	case 6: { tr a, b; both_ways w{{}, a, b}; tr t = DICE_MOVE_IF_VALUE(w.val); MC_CHECK(t.v == 5 && w.val.v == -1, "a member value"); tr u = DICE_MOVE_IF_VALUE(w.ref), v = DICE_MOVE_IF_VALUE(w.cref); MC_CHECK(u.v == 5 && v.v == 5 && a.v == 5 && b.v == 5, "a member reference was moved from"); std::unique_ptr<int> p = std::make_unique<int>(3); auto r = DICE_MOVE_IF_VALUE(p); MC_CHECK(!p && *r == 3, "a move-only value"); } } }
#endif
#endif
int main(int argc, char **argv) {
	std::vector<scenario> s;
#if PART == 0
	s.push_back({"switch,0", selection<0>}); s.push_back({"switch,1", selection<1>}); s.push_back({"switch,2", selection<2>}); s.push_back({"switch,3", selection<3>}); s.push_back({"switch,4", selection<4>}); s.push_back({"switch,5", selection<5>});
#if THOROUGH
	s.push_back({"switch,6", selection<6>}); s.push_back({"switch,7", selection<7>});
#endif
#elif PART == 1
	s.push_back({"copy int->long", copy_table<int, long>}); s.push_back({"copy class->array", copy_table<cls, int[2]>}); s.push_back({"copy array->class", copy_table<char[4], cls>}); s.push_back({"copy pointer->enum", copy_table<void const *, en>}); s.push_back({"copy class->itself", copy_table<cls, cls>}); s.push_back({"copy int->pointer to function", copy_table<int, void (*)(int)>});
	s.push_back({"forward_like", likes}); s.push_back({"member pointers", member_pointers}); s.push_back({"nullary", nullaries}); s.push_back({"zero-sized", zst}); s.push_back({"move if value", mv});
#else
	s.push_back({"strict invocable", strict});
#endif
	return run(argc, argv, s);
}
