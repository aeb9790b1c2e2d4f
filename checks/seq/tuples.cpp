// standard_layout_tuple and integral_template_tuple: every shape within bounds, every single-member write, every window.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/integral_template_tuple.hpp>
#include <dice/template-library/standard_layout_tuple.hpp>
#include <array>
#include <compare>
#include <cstddef>
#include <tuple>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
#ifndef PART
#define PART 0
#endif
struct empty { auto operator<=>(empty const &) const = default; };
struct odd { char c[3] = {0, 0, 0}; odd() = default; explicit odd(int v) : c{(char) v, (char) v, (char) v} {} auto operator<=>(odd const &) const = default; };
struct src { int v; src(int x) : v(x) {} src(src const &) = delete; }; // an argument that construction may use up
struct tracked { // owns its life time
	int v = 0;
	explicit tracked(src const &s) : v(s.v) { L.add(this, 1); } explicit tracked(src &&s) : v(std::exchange(s.v, -1)) { L.add(this, 1); } tracked(int a, int b) : v(a * 10 + b) { L.add(this, 1); }
	tracked() { L.add(this, 1); } explicit tracked(int x) : v(x) { L.add(this, 1); } tracked(tracked const &o) : v(o.v) { L.use(&o, 1); L.add(this, 1); } tracked(tracked &&o) : v(o.v) { L.use(&o, 1); o.v = -1; L.add(this, 1); }
	tracked &operator=(tracked const &o) { L.use(this, 1); L.use(&o, 1); v = o.v; return *this; } tracked &operator=(tracked &&o) { L.use(this, 1); L.use(&o, 1); v = o.v; o.v = -1; return *this; }
	~tracked() { L.del(this, 1); }
	bool operator==(tracked const &o) const { return v == o.v; } auto operator<=>(tracked const &o) const { return v <=> o.v; }
};
struct moveonly { int v = 0; moveonly() = default; explicit moveonly(int x) : v(x) {} explicit moveonly(src const &s) : v(s.v) {} explicit moveonly(src &&s) : v(std::exchange(s.v, -1)) {} moveonly(int a, int b) : v(a * 10 + b) {} moveonly(moveonly &&o) : v(std::exchange(o.v, -1)) {} moveonly &operator=(moveonly &&o) { v = std::exchange(o.v, -1); return *this; } auto operator<=>(moveonly const &) const = default; };
template<typename T> static long val(T const &t) { if constexpr (std::is_arithmetic_v<T>) return (long) t; else if constexpr (std::is_same_v<T, empty>) return 0; else if constexpr (std::is_same_v<T, odd>) { if (t.c[0] != t.c[1] || t.c[1] != t.c[2]) fail("a member was overwritten in part"); return t.c[0]; } else if constexpr (requires { t.pad; }) { for (char c : t.pad) if (c != t.pad[0]) fail("a member was overwritten in part"); return t.pad[0]; } else return t.v; }
template<typename T> static T make(int v) { if constexpr (std::is_same_v<T, empty>) return {}; else return T(v); }
template<typename T> static constexpr bool has_value = !std::is_same_v<T, empty>;

template<typename Tup, size_t N, typename Get> static std::array<long, N> values(Tup &t, Get get) { return [&]<size_t... I>(std::index_sequence<I...>) { return std::array<long, N>{val(get.template operator()<I>(t))...}; }(std::make_index_sequence<N>{}); }
struct span_ { std::uintptr_t b, e; };
// members of t: distinct storage inside the object
template<typename Tup, size_t N, typename Get> static void storage(Tup &t, Get get, char const *what) {
	if constexpr (N > 0) {
	auto sp = [&]<size_t... I>(std::index_sequence<I...>) { return std::array<span_, N>{span_{(std::uintptr_t) &get.template operator()<I>(t), (std::uintptr_t) &get.template operator()<I>(t) + sizeof(get.template operator()<I>(t))}...}; }(std::make_index_sequence<N>{});
	for (size_t i = 0; i < N; ++i) {
		MC_CHECK(sp[i].b >= (std::uintptr_t) &t && sp[i].e <= (std::uintptr_t) (&t + 1), "%s: member %zu lies outside of the tuple", what, i);
		for (size_t j = 0; j < i; ++j) MC_CHECK(sp[j].e <= sp[i].b || sp[i].e <= sp[j].b, "%s: members %zu and %zu share storage", what, j, i);
	}
	}
}
// every history of one write followed by reading everything
template<typename Tup, size_t N, typename Get> static void writes(Tup &t, Get get, char const *what) {
	[&]<size_t... I>(std::index_sequence<I...>) {
		([&] {
			auto &m = get.template operator()<I>(t); using M = std::remove_cvref_t<decltype(m)>;
			for (int v : {1, 77, -3}) {
				auto before = values<Tup, N>(t, get); m = make<M>(v); auto after = values<Tup, N>(t, get);
				for (size_t j = 0; j < N; ++j) MC_CHECK(after[j] == (j == I && has_value<M> ? v : before[j]), "%s: after writing %d to member %zu, member %zu is %ld (was %ld)", what, v, I, j, after[j], before[j]);
			}
		}(), ...);
	}(std::make_index_sequence<N>{});
}
template<typename A, typename Tup, size_t N, typename Get> static void same(Tup const &t, std::array<long, N> const &want, Get get, char const *what) { auto got = values<Tup const, N>(t, get); for (size_t i = 0; i < N; ++i) MC_CHECK(got[i] == want[i], "%s: member %zu is %ld, %ld expected", what, i, got[i], want[i]); }
template<typename... X> static void same_at(bool ok, char const *f, X... x) { ++E.checks; if (!ok) { char b[200]; snprintf(b, sizeof b, f, x...); fail("%s", b); } }
template<typename... M> static std::array<long, sizeof...(M)> numbers(int base) { size_t i = 0; return {(has_value<M> ? (long) (base + (int) i++) : (i++, 0L))...}; }

template<size_t I, size_t J, typename Tup, typename Get, typename... M> static void later(Tup const &t, auto &build, Get get, int d, char const *what) { // a later difference does not matter
	using MI = std::tuple_element_t<I, std::tuple<M...>>; using MJ = std::tuple_element_t<J, std::tuple<M...>>;
	if constexpr (J > I && has_value<MJ>) { Tup w = build(10); get.template operator()<I>(w) = make<MI>(10 + (int) I + d); get.template operator()<J>(w) = make<MJ>(10 + (int) J - d); MC_CHECK(((t <=> w) < 0) == (d > 0) && t != w, "%s: a difference in member %zu outweighs one in member %zu", what, J, I); }
}
template<size_t I, typename Tup, typename Get, typename... M> static void differ(Tup const &t, auto &build, Get get, char const *what) {
	using MI = std::tuple_element_t<I, std::tuple<M...>>;
	if constexpr (has_value<MI>) for (int d : {-1, 1}) {
		Tup u = build(10); get.template operator()<I>(u) = make<MI>(10 + (int) I + d);
		MC_CHECK(!(t == u) && t != u && ((t <=> u) < 0) == (d > 0) && ((t <=> u) > 0) == (d < 0) && (t < u) == (d > 0) && (u <= t) == (d < 0), "%s: comparison of tuples that differ in member %zu", what, I);
		[&]<size_t... J>(std::index_sequence<J...>) { (later<I, J, Tup, Get, M...>(t, build, get, d, what), ...); }(std::make_index_sequence<sizeof...(M)>{});
	}
}
// construction, copying, comparison of any tuple-like with get<I> given as a function object
template<typename Tup, typename Get, typename... M> static void common(Get get, char const *what) {
	constexpr size_t N = sizeof...(M); using arr = std::array<long, N>;
	auto build = [&](int base) { return [&]<size_t... I>(std::index_sequence<I...>) { return Tup(dtl::individual_construct, make<M>(base + (int) I)...); }(std::make_index_sequence<N>{}); };
	arr const want = numbers<M...>(10);
	MC_CHECK(Tup::size() == N, "%s: size() is %zu", what, (size_t) Tup::size());
	{ Tup t{}; same<void, Tup, N>(t, arr{}, get, "value-initialised"); storage<Tup, N>(t, get, what); storage<Tup const, N>(t, get, what); writes<Tup, N>(t, get, what); }
	{ Tup t = build(10); same<void, Tup, N>(t, want, get, "individual_construct"); }
	if constexpr (N > 0) { auto t = [&]<size_t... I>(std::index_sequence<I...>) { return Tup(make<M>(10 + (int) I)...); }(std::make_index_sequence<N>{}); same<void, Tup, N>(t, want, get, "constructed from values"); }
	if constexpr ((std::is_constructible_v<M, char &> && ...)) {
		char five = 5; arr w{}; w.fill(5);
		Tup const u{dtl::uniform_construct, five}; same<void, Tup, N>(u, w, get, "uniform_construct"); dtl::uniform_construct_t tag; Tup const u2{tag, std::move(five)}; same<void, Tup, N>(u2, w, get, "uniform_construct of a temporary");
	}
	if constexpr ((std::is_constructible_v<M, src> && ...)) {
		arr w{}; w.fill(6); src six(6); Tup const a{dtl::uniform_construct, six}; same<void, Tup, N>(a, w, get, "uniform_construct"); MC_CHECK(six.v == 6, "uniform_construct used up an argument that was not offered"); Tup const b{dtl::uniform_construct, std::move(six)}; same<void, Tup, N>(b, w, get, "uniform_construct of a temporary");
		w.fill(78); Tup const c{dtl::uniform_construct, 7, 8}; same<void, Tup, N>(c, w, get, "uniform_construct with two arguments");
		if constexpr (N > 0) [&]<size_t... I>(std::index_sequence<I...>) { src in[]{((void) I, src(9))...}; Tup const d(in[I]...); for (src &x : in) MC_CHECK(x.v == 9, "an argument that was not offered was used up"); Tup const e(std::move(in[I])...); w.fill(9); same<void, Tup, N>(d, w, get, "construction from lvalues"); same<void, Tup, N>(e, w, get, "construction from temporaries"); for (src &x : in) MC_CHECK(x.v == -1, "a temporary argument was not handed on as one"); }(std::make_index_sequence<N>{});
	}
	{ Tup const z{dtl::uniform_construct}; same<void, Tup, N>(z, arr{}, get, "uniform_construct without arguments"); }
	if constexpr ((std::is_copy_constructible_v<M> && ...)) {
		Tup t = build(10); Tup const c = build(20);
		{ Tup a(t), b{t}, d = t, e(c), f{c}; for (Tup *p : {&a, &b, &d}) same<void, Tup, N>(*p, want, get, "copy"); for (Tup *p : {&e, &f}) same<void, Tup, N>(*p, numbers<M...>(20), get, "copy of a const tuple"); same<void, Tup, N>(t, want, get, "source of a copy"); writes<Tup, N>(a, get, what); same<void, Tup, N>(t, want, get, "copies are independent"); }
		{ Tup a = build(30); a = c; same<void, Tup, N>(a, numbers<M...>(20), get, "copy assignment"); a = t; same<void, Tup, N>(a, want, get, "copy assignment"); Tup &r = a; a = r; same<void, Tup, N>(a, want, get, "self-assignment"); }
	}
	{ Tup t = build(10), a(std::move(t)); same<void, Tup, N>(a, want, get, "move"); Tup b = build(40); b = std::move(a); same<void, Tup, N>(b, want, get, "move assignment"); }
	// comparison: one member smaller, equal or greater each
	{
		Tup const t = build(10); { Tup const u = build(10); MC_CHECK(t == u && !(t != u) && (t <=> u) == 0, "%s: equal tuples compare different", what); }
		[&]<size_t... I>(std::index_sequence<I...>) { (differ<I, Tup, Get, M...>(t, build, get, what), ...); }(std::make_index_sequence<N>{});
	}
}

// ---- standard_layout_tuple
template<typename... Ts> struct shape; // the layout the tuple is documented to have, to know which windows are views of a tuple
template<> struct shape<> {};
template<typename T, typename... Ts> struct shape<T, Ts...> { T first; [[no_unique_address]] shape<Ts...> rest; };
template<size_t I, typename T, typename... Ts> static consteval size_t member_offset() { using S = shape<T, Ts...>; if constexpr (I == 0) return 0; else return offsetof(S, rest) + member_offset<I - 1, Ts...>(); }
struct get_ix { template<size_t I, typename T> decltype(auto) operator()(T &&t) const { return std::forward<T>(t).template get<I>(); } };
template<typename List, size_t O, size_t... J> struct window_; template<typename... Ts, size_t O, size_t... J> struct window_<std::tuple<Ts...>, O, J...> {
	using tup = dtl::standard_layout_tuple<std::tuple_element_t<O + J, std::tuple<Ts...>>...>;
	static consteval bool compatible() { if constexpr (sizeof...(J) == 0) return true; else return ((member_offset<O + J, Ts...>() - member_offset<O, Ts...>() == member_offset<J, std::tuple_element_t<O + J, std::tuple<Ts...>>...>()) && ...); }
};
template<typename... Ts> struct slt {
	using T = dtl::standard_layout_tuple<Ts...>; static constexpr size_t N = sizeof...(Ts); using list = std::tuple<Ts...>;
	template<size_t O, size_t C, size_t... J> static void window(std::index_sequence<J...>) {
		using W = window_<list, O, J...>;
		if constexpr (W::compatible()) {
			++E.transitions; T t{}; T const &c = t; using S = typename W::tup;
			static_assert(std::is_same_v<decltype(t.template subtuple<O, C>()), S &> && std::is_same_v<decltype(c.template subtuple<O, C>()), S const &> && std::is_same_v<decltype(std::move(t).template subtuple<O, C>()), S &&>);
			S &s = t.template subtuple<O, C>(); S const &cs = c.template subtuple<O, C>();
			(same_at((void const *) &s.template get<J>() == (void const *) &t.template get<O + J>() && (void const *) &cs.template get<J>() == (void const *) &t.template get<O + J>(), "subtuple<%zu, %zu>: its member %zu is not member %zu of the tuple", O, C, J, O + J), ...);
			// writing through the view changes these members only
			([&] { using M = std::tuple_element_t<O + J, list>; if constexpr (has_value<M>) { auto before = values<T, N>(t, get_ix{}); s.template get<J>() = make<M>(50 + (int) J); auto after = values<T, N>(t, get_ix{}); for (size_t i = 0; i < N; ++i) MC_CHECK(after[i] == (i == O + J ? 50 + (long) J : before[i]), "writing member %zu of subtuple<%zu, %zu> changed member %zu", J, O, C, i); } }(), ...);
			if constexpr (O == 0 && C == N) { auto &d = t.template subtuple<0>(); static_assert(std::is_same_v<decltype(d), S &>); MC_CHECK((void *) &d == (void *) &s, "subtuple<%zu> is not the rest of the tuple", O); }
		}
	}
	static void run() {
		++E.transitions; ++E.beat; L.reset();
		{
			common<T, get_ix, Ts...>(get_ix{}, "standard_layout_tuple");
			static_assert(std::tuple_size_v<T> == N);
			[]<size_t... I>(std::index_sequence<I...>) {
				static_assert((std::is_same_v<std::tuple_element_t<I, T>, std::tuple_element_t<I, list>> && ...));
				static_assert(((std::is_same_v<decltype(std::declval<T &>().template get<I>()), std::tuple_element_t<I, list> &> && std::is_same_v<decltype(std::declval<T const &>().template get<I>()), std::tuple_element_t<I, list> const &> && std::is_same_v<decltype(std::declval<T>().template get<I>()), std::tuple_element_t<I, list> &&> && std::is_same_v<decltype(std::declval<T const>().template get<I>()), std::tuple_element_t<I, list> const &&>) && ...));
				T t{}; T const &c = t;
				([&] { using M = std::tuple_element_t<I, list>; if constexpr ((std::is_same_v<M, Ts> + ... + 0) == 1) {
					static_assert(std::is_same_v<decltype(t.template get<M>()), M &> && std::is_same_v<decltype(c.template get<M>()), M const &> && std::is_same_v<decltype(std::move(t).template get<M>()), M &&>);
					MC_CHECK((void *) &t.template get<M>() == (void *) &t.template get<I>() && (void const *) &c.template get<M>() == (void *) &t.template get<I>(), "get by type does not find member %zu", I);
				} }(), ...);
				if constexpr (N > 0) { // application to a function, in order
					size_t n = 0; dtl::tuple_for_each(t, [&](auto &m) { static_assert(!std::is_const_v<std::remove_reference_t<decltype(m)>>); bool ok = false; size_t k = 0; ((ok = ok || (k++ == n && (void *) &m == (void *) &t.template get<I>())), ...); if (!ok) fail("tuple_for_each: call %zu does not get member %zu", n, n); ++n; }); MC_CHECK(n == N, "tuple_for_each made %zu calls", n);
					if constexpr (std::is_standard_layout_v<T>) [&]<size_t... OC>(std::index_sequence<OC...>) { ([&] { constexpr size_t O = OC / (N + 1), C = OC % (N + 1); if constexpr (O + C <= N) window<O, C>(std::make_index_sequence<C>{}); }(), ...); }(std::make_index_sequence<N * (N + 1)>{});
				}
			}(std::make_index_sequence<N>{});
		}
		L.expect(0);
	}
};
// members of const, volatile and reference type
static int ref_target;
template<typename... Ts> static void cv_members() {
	using T = dtl::standard_layout_tuple<Ts...>; using list = std::tuple<Ts...>; ++E.transitions;
	auto mk = []<typename M>(std::type_identity<M>) -> M { if constexpr (std::is_reference_v<M>) return static_cast<M>(ref_target); else return M(4); };
	T t(mk(std::type_identity<Ts>{})...); T const &c = t; T u(t), w(c); // copying must work whatever the members are
	[&]<size_t... I>(std::index_sequence<I...>) {
		static_assert((std::is_same_v<std::tuple_element_t<I, T>, std::tuple_element_t<I, list>> && ...));
		static_assert((std::is_same_v<decltype(t.template get<I>()), std::tuple_element_t<I, list> &> && ...));
		static_assert(((std::is_reference_v<std::tuple_element_t<I, list>> || std::is_same_v<decltype(c.template get<I>()), std::tuple_element_t<I, list> const &>) && ...));
		([&] { long a = (long) t.template get<I>(), b = (long) u.template get<I>(), d = (long) w.template get<I>(), x = std::is_reference_v<std::tuple_element_t<I, list>> ? ref_target : 4; MC_CHECK(a == x && b == x && d == x, "member %zu of a tuple of const, volatile or reference members is %ld, copies %ld and %ld, %ld expected", I, a, b, d, x);
			if constexpr (std::is_reference_v<std::tuple_element_t<I, list>>) MC_CHECK((void const *) &t.template get<I>() == (void const *) &ref_target && (void const *) &u.template get<I>() == (void const *) &ref_target, "member %zu does not refer to its target", I); }(), ...);
	}(std::make_index_sequence<sizeof...(Ts)>{});
}
template<typename... Done> struct cv_all { template<typename F> static void go() { if constexpr (sizeof...(Done) == 2) cv_members<Done...>(); else { cv_all<Done..., int const>::template go<F>(); cv_all<Done..., long volatile>::template go<F>(); cv_all<Done..., int &>::template go<F>(); cv_all<Done..., int const &>::template go<F>(); cv_all<Done..., char>::template go<F>(); } } };
static void cv_shapes() { ref_target = 1 + choose(2); op("members of const, volatile and reference type"); state((u64) ref_target); cv_all<>::go<void>(); cv_members<int const>(); cv_members<int &>(); }
using alphabet = std::tuple<char, std::int16_t, std::int32_t, std::int64_t, empty, odd, tracked, moveonly>;
constexpr size_t A = std::tuple_size_v<alphabet>;
constexpr size_t pw(size_t b, size_t e) { size_t r = 1; while (e--) r *= b; return r; }
using fn0 = void (*)();
template<size_t N, size_t Code, size_t... P> static void one(std::index_sequence<P...>) { slt<std::tuple_element_t<Code / pw(A, P) % A, alphabet>...>::run(); }
template<size_t N, size_t Code> static void one_() { one<N, Code>(std::make_index_sequence<N>{}); }
template<size_t N, size_t From, size_t Count> static void shapes() {
	static constexpr auto t = []<size_t... I>(std::index_sequence<I...>) { return std::array<fn0, Count>{&one_<N, From + I>...}; }(std::make_index_sequence<Count>{});
	size_t i = (size_t) choose(Count); op("standard_layout_tuple of %zu members, shape %zu", N, From + i); state(mix(N, From + i)); observe(mix(N, From + i)); t[i]();
}
using alphabet4 = std::tuple<char, std::int32_t, std::int64_t, empty>;
template<size_t Code> static void four() { slt<std::tuple_element_t<Code / 64 % 4, alphabet4>, std::tuple_element_t<Code / 16 % 4, alphabet4>, std::tuple_element_t<Code / 4 % 4, alphabet4>, std::tuple_element_t<Code % 4, alphabet4>>::run(); }
template<size_t From> static void shapes4() {
	static constexpr auto t = []<size_t... I>(std::index_sequence<I...>) { return std::array<fn0, 32>{&four<From + I>...}; }(std::make_index_sequence<32>{});
	size_t i = (size_t) choose(32); op("standard_layout_tuple of 4 members, shape %zu", From + i); state(From + i); observe(From + i); t[i]();
}
// ---- integral_template_tuple
template<typename I> struct kinds {
	template<I i> struct plain { int v = 0; plain() = default; explicit plain(int x) : v(x) {} auto operator<=>(plain const &) const = default; };
	template<I i> struct sized { static constexpr size_t n = (size_t) ((int) i < 0 ? -(int) i : (int) i) % 7 + 1; char pad[n]{}; sized() = default; explicit sized(int x) { for (char &c : pad) c = (char) x; } auto operator<=>(sized const &) const = default; };
	template<I i> struct owned : tracked { using tracked::tracked; };
	template<I i> using same = int;
};
template<typename I, I first, I last, template<I> typename M> struct itt {
	using T = dtl::integral_template_tuple<first, last, M>; static constexpr long N = first < last ? (long) last - (long) first : (long) first - (long) last;
	static constexpr I at(long k) { return (I) (first < last ? (long) first + k : (long) first - k); }
	struct get_at { template<size_t K, typename X> decltype(auto) operator()(X &&t) const { return std::forward<X>(t).template get<at((long) K)>(); } };
	template<size_t O, size_t C, size_t... J> static void window(std::index_sequence<J...>) {
		constexpr I nf = at((long) O), nl = at((long) (O + C)); using S = dtl::integral_template_tuple<nf, nl, M>;
		if constexpr (window_<list, O, J...>::compatible()) {
			++E.transitions; T t{}; T const &c = t;
			static_assert(std::is_same_v<decltype(t.template subtuple<nf, nl>()), S &> && std::is_same_v<decltype(c.template subtuple<nf, nl>()), S const &> && std::is_same_v<decltype(std::move(t).template subtuple<nf, nl>()), S &&>);
			S &s = t.template subtuple<nf, nl>(); S const &cs = c.template subtuple<nf, nl>();
			(same_at((void const *) &s.template get<at((long) (O + J))>() == (void const *) &t.template get<at((long) (O + J))>() && (void const *) &cs.template get<at((long) (O + J))>() == (void const *) &t.template get<at((long) (O + J))>(), "subtuple<%ld, %ld>: index %ld names another member", (long) nf, (long) nl, (long) at((long) (O + J))), ...);
			([&] { using E_ = M<at((long) (O + J))>; auto before = values<T, (size_t) N>(t, get_at{}); s.template get<at((long) (O + J))>() = make<E_>(50 + (int) J); auto after = values<T, (size_t) N>(t, get_at{}); for (size_t i = 0; i < (size_t) N; ++i) MC_CHECK(after[i] == (i == O + J ? 50 + (long) J : before[i]), "writing through subtuple<%ld, %ld> changed member %zu", (long) nf, (long) nl, i); }(), ...);
		}
	}
	template<typename S> struct lst; template<size_t... K> struct lst<std::index_sequence<K...>> { using type = std::tuple<M<at((long) K)>...>; static void com() { common<T, get_at, M<at((long) K)>...>(get_at{}, "integral_template_tuple"); } };
	using list = typename lst<std::make_index_sequence<(size_t) N>>::type;
	static void run() {
		++E.transitions; ++E.beat; L.reset();
		{
			lst<std::make_index_sequence<(size_t) N>>::com();
			[]<size_t... K>(std::index_sequence<K...>) {
				static_assert((std::is_same_v<typename T::template value_type<at((long) K)>, M<at((long) K)>> && ...));
				static_assert(((std::is_same_v<decltype(std::declval<T &>().template get<at((long) K)>()), M<at((long) K)> &> && std::is_same_v<decltype(std::declval<T const &>().template get<at((long) K)>()), M<at((long) K)> const &> && std::is_same_v<decltype(std::declval<T>().template get<at((long) K)>()), M<at((long) K)> &&> && std::is_same_v<decltype(std::declval<T const>().template get<at((long) K)>()), M<at((long) K)> const &&>) && ...));
				if constexpr (N > 0) {
					T t{}; T const &c = t;
					auto visit_ = [&](auto &x) { size_t n = 0; size_t r = x.visit([&](auto &m) { if (std::is_const_v<std::remove_reference_t<decltype(x)>> != std::is_const_v<std::remove_reference_t<decltype(m)>>) fail("visit: a member of a %s tuple is passed as %s", std::is_const_v<std::remove_reference_t<decltype(x)>> ? "const" : "non-const", std::is_const_v<std::remove_reference_t<decltype(m)>> ? "const" : "non-const"); bool ok = false; size_t k = 0; ((ok = ok || (k++ == n && (void const *) &m == (void const *) &t.template get<at((long) K)>())), ...); if (!ok) fail("visit: call %zu does not get member %zu", n, n); return n++; }); MC_CHECK(n == (size_t) N && r + 1 == n, "visit made %zu calls and returned %zu", n, r); };
					visit_(t); visit_(c);
					if constexpr (std::is_standard_layout_v<T>) [&]<size_t... OC>(std::index_sequence<OC...>) { ([&] { constexpr size_t O = OC / ((size_t) N + 1), C = OC % ((size_t) N + 1); if constexpr (O + C <= (size_t) N) window<O, C>(std::make_index_sequence<C>{}); }(), ...); }(std::make_index_sequence<(size_t) N * ((size_t) N + 1)>{});
				}
			}(std::make_index_sequence<(size_t) N>{});
		}
		L.expect(0);
	}
};
template<typename I, template<I> typename M, I... bs> static void intervals() {
	static constexpr std::array<I, sizeof...(bs)> b{bs...}; constexpr size_t n = b.size();
	static constexpr auto t = []<size_t... X>(std::index_sequence<X...>) { return std::array<fn0, n * n>{[] { constexpr long d = (long) b[X / n] - (long) b[X % n]; if constexpr (d <= 6 && d >= -6) return (fn0) &itt<I, b[X / n], b[X % n], M>::run; else return (fn0) nullptr; }()...}; }(std::make_index_sequence<n * n>{});
	size_t i = (size_t) choose(n * n); op("integral_template_tuple<%ld, %ld>", (long) b[i / n], (long) b[i % n]); state(i); observe(i); if (t[i]) t[i]();
}
int main(int argc, char **argv) {
	std::vector<scenario> s;
#if PART < 8
	s.push_back({"standard,3," + std::to_string(PART), shapes<3, PART * A * A, A * A>});
#elif PART == 11
	{ s.push_back({"standard,0", shapes<0, 0, 1>}); s.push_back({"standard,cv", cv_shapes}); s.push_back({"standard,1", shapes<1, 0, A>}); s.push_back({"standard,2", shapes<2, 0, A * A>}); }
#elif PART == 8
	s.push_back({"integral,int,plain", intervals<int, kinds<int>::plain, -3, -2, -1, 0, 1, 2, 3>});
#elif PART == 9
	s.push_back({"integral,int,sized", intervals<int, kinds<int>::sized, -3, -1, 0, 2, 4, 5>}); s.push_back({"integral,int,same", intervals<int, kinds<int>::same, -2, 0, 1, 3>});
#elif PART == 10
	s.push_back({"integral,size_t,owned", intervals<size_t, kinds<size_t>::owned, 0, 1, 3, 4, 6>}); s.push_back({"integral,i8,plain", intervals<signed char, kinds<signed char>::plain, -128, -126, -1, 1, 125, 127>}); s.push_back({"integral,u8,sized", intervals<unsigned char, kinds<unsigned char>::sized, 0, 2, 126, 129, 252, 255>});
#elif PART >= 20
	s.push_back({"standard,4," + std::to_string(PART - 20), shapes4<(PART - 20) * 32>});
#endif
	return run(argc, argv, s);
}
