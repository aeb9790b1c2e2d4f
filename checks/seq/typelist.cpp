// type_list: every operation on every list of types up to a length, against the same operation on a vector of numbers.
#include <dice/template-library/macro_util.hpp>
#ifdef NO_BUILTIN // the portable implementations that the header also contains
#undef DICE_COMPILER_HAS_BUILTIN
#define DICE_COMPILER_HAS_BUILTIN(x) 0
#endif
#include <dice/template-library/type_list.hpp>
#include "../../engine/mcseq.hpp"
#include <array>
#include <memory>
#include <optional>
#include <tuple>
#include <variant>
namespace tl = dice::template_library::type_list;
using namespace mcs; using vec = std::vector<int>;
#ifndef PART
#define PART 0
#endif
#ifndef THOROUGH
#define THOROUGH 0
#endif
struct inc; // incomplete
#ifdef RELATED // types that differ only in qualification or reference
using T1 = int const; using T2 = int &; using T3 = int const &;
#else
using T1 = void; using T2 = inc const; using T3 = tl::type_list<int>;
#endif
template<typename T> struct code_; template<> struct code_<int> { static constexpr int v = 0; }; template<> struct code_<T1> { static constexpr int v = 1; }; template<> struct code_<T2> { static constexpr int v = 2; }; template<> struct code_<T3> { static constexpr int v = 3; };
template<typename T> struct box; template<typename T> struct code_<box<T>> { static constexpr int v = 10 + code_<T>::v; }; template<size_t n> struct code_<std::integral_constant<size_t, n>> { static constexpr int v = 100 + (int) n; }; template<> struct code_<tl::nullopt> { static constexpr int v = -1; };
template<int> struct type_; template<> struct type_<0> { using t = int; }; template<> struct type_<1> { using t = T1; }; template<> struct type_<2> { using t = T2; }; template<> struct type_<3> { using t = T3; };
template<typename TL> struct codes_; template<typename... T> struct codes_<tl::type_list<T...>> { static vec get() { return {code_<T>::v...}; } }; template<typename TL> static vec codes() { return codes_<TL>::get(); }
template<int n, typename... T> struct decode : decode<n / 4, typename type_<n % 4>::t, T...> {}; template<typename... T> struct decode<1, T...> { using t = tl::type_list<T...>; };
template<int n> using list = typename decode<n>::t;
static vec model(int n) { vec r; for (; n > 1; n /= 4) r.insert(r.begin(), n % 4); return r; }
static std::string show(vec const &v) { std::string s = "["; for (int x : v) s += std::to_string(x) + " "; return s + "]"; }
static void same(vec const &got, vec const &want, char const *what) { MC_CHECK((got == want), "%s gives %s, %s expected", what, show(got).c_str(), show(want).c_str()); }
static int at(vec const &v, size_t i) { return i < v.size() ? v[i] : -1; }
template<int mask> struct pred_ { template<typename T> constexpr bool operator()(std::type_identity<T>) const { return (mask >> code_<T>::v) & 1; } };
template<int mask> inline constexpr auto lam = []<typename T>(std::type_identity<T>) { return ((mask >> code_<T>::v) & 1) != 0; };
inline constexpr auto boxer = []<typename T>(std::type_identity<T>) { return std::type_identity<box<T>>{}; };
template<typename T> using opt_code = code_<tl::opt_t<T>>;
template<typename... T> struct other {}; template<typename TL> struct relist; template<typename... T> struct relist<tl::type_list<T...>> { using t = other<T...>; };
template<typename T> concept has_type = requires { typename T::type; }; template<typename T> concept has_value = requires { T::value; };
static vec uniq(vec const &v) { vec r; for (int x : v) { bool s = false; for (int y : r) s |= x == y; if (!s) r.push_back(x); } return r; }

struct mf { vec *v; mf(vec *x) : v(x) {} mf(mf const &) = delete; template<typename T> void operator()(std::type_identity<T>) { v->push_back(code_<T>::v); } };
template<int n> static void basics() {
	using TL = list<n>; vec m = model(n); constexpr size_t N = tl::size_v<TL>; same(codes<TL>(), m, "the list"); MC_CHECK((N == m.size() && tl::size<TL>::value == N), "size is %zu", N);
	MC_CHECK((opt_code<tl::first<TL>>::v == at(m, 0)), "first"); MC_CHECK((opt_code<tl::last<TL>>::v == (N ? m.back() : -1)), "last gives %d", opt_code<tl::last<TL>>::v);
	MC_CHECK((has_type<tl::first<TL>> == (N > 0) && has_type<tl::last<TL>> == (N > 0)), "first or last of an empty list"); if constexpr (N > 0) MC_CHECK((code_<tl::first_t<TL>>::v == m[0] && code_<tl::last_t<TL>>::v == m.back()), "first_t or last_t");
	[&]<size_t... i>(std::index_sequence<i...>) { ([&] { using X = tl::nth<TL, i>; bool ok = opt_code<X>::v == at(m, i) && has_type<X> == (i < N); if constexpr (i < N) ok = ok && code_<tl::nth_t<TL, i>>::v == m[i]; MC_CHECK((ok), "nth<%zu>", i); }(), ...); }(std::make_index_sequence<N + 3>{});
	if constexpr (N == 0 || !has_type<tl::nth<TL, 0>>) MC_CHECK((N == 0), "nth<0>");
#ifndef NO_BUILTIN
	MC_CHECK((!has_type<tl::nth<TL, size_t(-1)>> && !has_type<tl::nth<TL, size_t(1) << 32>>), "nth of a huge index");
#endif
	[&]<size_t... i>(std::index_sequence<i...>) { ([&] { same(codes<tl::take_t<TL, i>>(), vec(m.begin(), m.begin() + (long) i), "take"); same(codes<tl::drop_t<TL, i>>(), vec(m.begin() + (long) i, m.end()), "drop"); same(codes<tl::concat_t<tl::take_t<TL, i>, tl::drop_t<TL, i>>>(), m, "take then drop"); }(), ...); }(std::make_index_sequence<N + 1>{});
	[&]<int... k>(std::integer_sequence<int, k...>) { ([&] { using T = typename type_<k>::t; long c = 0; for (int x : m) c += x == k; MC_CHECK((tl::count_v<TL, T> == (size_t) c && tl::contains_v<TL, T> == (c > 0)), "count or contains of type %d: %zu", k, (size_t) tl::count_v<TL, T>); }(), ...); }(std::make_integer_sequence<int, 4>{});
	MC_CHECK(((tl::count_v<TL, inc> == 0 && !tl::contains_v<TL, inc> && tl::count_v<TL, int volatile> == 0)), "a differently qualified type is found");
	bool same_ = true; for (int x : m) same_ &= x == m[0]; MC_CHECK((tl::all_same_v<TL> == same_), "all_same"); same(codes<tl::unique_t<TL>>(), uniq(m), "unique"); MC_CHECK((tl::all_distinct_v<TL> == (uniq(m).size() == m.size())), "all_distinct");
	vec b = m; for (int &x : b) x += 10; same(codes<tl::transform_t<TL, boxer>>(), b, "transform");
	MC_CHECK(((std::is_same_v<tl::apply_t<TL, other>, typename relist<TL>::t>)), "apply"); same(codes<tl::unpack_t<tl::apply_t<TL, other>>>(), m, "unpack"); same(codes<tl::unpack_t<TL>>(), m, "unpack of a list"); same(codes<tl::tuple_to_type_list_t<tl::apply_t<TL, std::tuple>>>(), m, "tuple_to_type_list"); same(codes<tl::unpack_t<tl::apply_t<TL, std::tuple>>>(), m, "unpack of a tuple"); same(codes<tl::unpack_t<tl::apply_t<TL, std::variant>>>(), m, "unpack of a variant");
	vec seen; tl::for_each<TL>([&]<typename T>(std::type_identity<T>) { seen.push_back(code_<T>::v); return 7; }); same(seen, m, "for_each");
	mf f{&seen}; tl::for_each<TL>(f); vec mm = m; mm.insert(mm.end(), m.begin(), m.end()); same(seen, mm, "for_each of a function object");
	for (size_t t = 0; t < N; ++t) { seen.clear(); bool ex = false; try { tl::for_each<TL>([&]<typename T>(std::type_identity<T>) { if (seen.size() == t) throw boom{}; seen.push_back(code_<T>::v); }); } catch (boom const &) { ex = true; } MC_CHECK((ex), "for_each loses an exception"); same(seen, vec(m.begin(), m.begin() + (long) t), "for_each until the exception"); }
	vec acc = tl::fold<TL>(vec{99}, []<typename T>(vec a, std::type_identity<T>) { a.push_back(code_<T>::v); return a; }); vec w{99}; w.insert(w.end(), m.begin(), m.end()); same(acc, w, "fold"); vec const init{99}; same(tl::fold<TL>(init, []<typename T>(vec &&a, std::type_identity<T>) { a.push_back(code_<T>::v); return std::move(a); }), w, "fold of a constant"); MC_CHECK((init == vec{99}), "fold changed the initial value");
	auto p = tl::fold<TL>(std::make_unique<long>(1), []<typename T>(std::unique_ptr<long> a, std::type_identity<T>) { *a = *a * 5 + code_<T>::v; return a; }); long wl = 1; for (int x : m) wl = wl * 5 + x; MC_CHECK((*p == wl), "fold of a move-only value"); constexpr long cl = tl::fold<TL>(1L, []<typename T>(long a, std::type_identity<T>) { return a * 5 + code_<T>::v; }); MC_CHECK((cl == wl), "fold at compile time");
}
template<int n, int mask, auto pred> static void with_pred() {
	using TL = list<n>; vec m = model(n), f; int first = -1; long pos = -1; size_t hits = 0; for (size_t i = 0; i < m.size(); ++i) if ((mask >> m[i]) & 1) { f.push_back(m[i]); ++hits; if (pos < 0) { pos = (long) i; first = m[i]; } }
	same(codes<tl::filter_t<TL, pred>>(), f, "filter"); MC_CHECK((opt_code<tl::find_if<TL, pred>>::v == first && has_type<tl::find_if<TL, pred>> == (hits > 0)), "find_if finds %d, %d expected", opt_code<tl::find_if<TL, pred>>::v, first);
	using P = tl::position<TL, pred>; MC_CHECK((has_value<P> == (hits > 0)), "position of a missing element"); if constexpr (has_value<P>) { MC_CHECK(((long) tl::position_v<TL, pred> == pos && (long) tl::opt_v<P> == pos), "position %ld, %ld expected", (long) P::value, pos); MC_CHECK((code_<tl::nth_t<TL, P::value>>::v == first), "position and nth disagree"); } else { static_assert(std::is_same_v<std::remove_cvref_t<decltype(tl::opt_v<P>)>, tl::nullopt>); static_assert(tl::opt_v<P> == tl::nullopt{}); }
	MC_CHECK((tl::all_of_v<TL, pred> == (hits == m.size())), "all_of"); MC_CHECK((tl::any_of_v<TL, pred> == (hits > 0)), "any_of"); MC_CHECK((tl::none_of_v<TL, pred> == (hits == 0)), "none_of");
}
template<int n> static void predicates() { [&]<int... k>(std::integer_sequence<int, k...>) { (with_pred<n, k, lam<k>>(), ...); }(std::make_integer_sequence<int, 16>{}); with_pred<n, 5, pred_<5>{}>(); with_pred<n, 10, pred_<10>{}>(); }
// list -> list operations and their compositions
template<int o, typename TL> struct step { using t = TL; }; // 0: nothing
template<typename TL> struct step<1, TL> { using t = tl::unique_t<TL>; }; template<typename TL> struct step<2, TL> { using t = tl::drop_t<TL, (tl::size_v<TL> > 0)>; }; template<typename TL> struct step<3, TL> { using t = tl::take_t<TL, (tl::size_v<TL> + 1) / 2>; };
inline constexpr auto odd = []<typename T>(std::type_identity<T>) { return code_<T>::v % 2 != 0; }; template<typename X> struct rename_; template<int k> struct rename_<type_<k>> { using type = typename type_<k>::t; }; inline constexpr auto rotate = []<typename T>(std::type_identity<T>) { return rename_<type_<(code_<T>::v + 1) % 4>>{}; };
template<typename TL> struct step<4, TL> { using t = tl::filter_t<TL, odd>; }; template<typename TL> struct step<5, TL> { using t = tl::transform_t<TL, rotate>; }; template<typename TL> struct step<6, TL> { using t = tl::concat_t<TL, TL>; };
template<typename TL> struct step<7, TL> { template<typename... T> using lists = tl::type_list<tl::type_list<T, int>...>; using t = tl::flatten_t<tl::apply_t<TL, lists>>; };
static vec mstep(int o, vec v) { vec r; switch (o) { case 1: return uniq(v); case 2: return v.empty() ? v : vec(v.begin() + 1, v.end()); case 3: return vec(v.begin(), v.begin() + (long) (v.size() + 1) / 2); case 4: for (int x : v) if (x % 2) r.push_back(x); return r; case 5: for (int &x : v) x = (x + 1) % 4; return v; case 6: r = v; r.insert(r.end(), v.begin(), v.end()); return r; case 7: for (int x : v) { r.push_back(x); r.push_back(0); } return r; } return v; }
template<int n, int c> static void compose() { using A = typename step<c % 8, list<n>>::t; using B = typename step<c / 8 % 8, A>::t; same(codes<B>(), mstep(c / 8 % 8, mstep(c % 8, model(n))), "a composition of operations"); if constexpr (c >= 64) { using C = typename step<c / 64, B>::t; same(codes<C>(), mstep(c / 64, codes<B>()), "a composition of three operations"); } }
template<int n> static void compositions() { [&]<int... k>(std::integer_sequence<int, k...>) { (compose<n, k>(), ...); }(std::make_integer_sequence<int, THOROUGH ? 512 : 64>{}); }
template<int a, int b> static void pair_ops() { same(codes<tl::concat_t<list<a>>>(), model(a), "concat of one list"); same(codes<tl::flatten_t<tl::type_list<list<a>>>>(), model(a), "flatten of one list"); vec w = model(a), y = model(b); w.insert(w.end(), y.begin(), y.end()); same(codes<tl::concat_t<list<a>, list<b>>>(), w, "concat of two lists"); same(codes<tl::flatten_t<tl::type_list<list<a>, list<b>>>>(), w, "flatten of two lists"); vec z = w; vec v = model(a); z.insert(z.end(), v.begin(), v.end()); same(codes<tl::concat_t<list<a>, list<b>, list<a>>>(), z, "concat of three lists"); same(codes<tl::flatten_t<tl::type_list<list<a>, list<b>, list<a>>>>(), z, "flatten of three lists"); vec q = z; q.insert(q.end(), y.begin(), y.end()); same(codes<tl::concat_t<list<a>, list<b>, list<a>, list<b>>>(), q, "concat of four lists"); }
template<int n, int... I> static void pairs_with(std::integer_sequence<int, I...>) { (pair_ops<n, 1>(), ..., pair_ops<n, 4 + I>()); (pair_ops<n, 16 + I>(), ...); (pair_ops<n, 16 + 4 + I>(), ...); (pair_ops<n, 16 + 8 + I>(), ...); (pair_ops<n, 16 + 12 + I>(), ...); }
static void table(char const *what, std::vector<std::pair<int, void (*)()>> const &t) { int k = choose((int) t.size()); op("%s of list %s", what, show(model(t[(size_t) k].first)).c_str()); state((u64) t[(size_t) k].first * 8 + hash_str(what)); t[(size_t) k].second(); }
struct nothing {}; struct both { using type = char; static constexpr int value = 4; }; struct only_value { static constexpr int value = 3; };
static void generated() {
	int what = choose(6); op("generation %d", what); state((u64) what);
	constexpr auto gen = [](auto i) { return std::type_identity<std::integral_constant<size_t, i.value * i.value>>{}; };
	auto want = [](size_t n) { vec r; for (size_t i = 0; i < n; ++i) r.push_back(100 + (int) (i * i)); return r; };
	if (what == 0) [&]<size_t... n>(std::index_sequence<n...>) { (same(codes<tl::generate_t<n, gen>>(), want(n), "generate"), ...); }(std::make_index_sequence<33>{});
	if (what == 1) [&]<size_t... n>(std::index_sequence<n...>) { (same(codes<tl::integer_sequence_to_type_list_t<std::make_index_sequence<n>>>(), [&] { vec r; for (size_t i = 0; i < n; ++i) r.push_back(100 + (int) i); return r; }(), "integer_sequence_to_type_list"), ...); }(std::make_index_sequence<33>{});
	if (what == 2) { MC_CHECK(((std::is_same_v<tl::integer_sequence_to_type_list_t<std::integer_sequence<signed char, -128, 5, 127>>, tl::type_list<std::integral_constant<signed char, -128>, std::integral_constant<signed char, 5>, std::integral_constant<signed char, 127>>>)), "a sequence of signed char"); MC_CHECK(((std::is_same_v<tl::integer_sequence_to_type_list_t<std::integer_sequence<bool, true, false>>, tl::type_list<std::true_type, std::false_type>>)), "a sequence of bool"); }
	if (what == 3) { using P = std::pair<int, char const &>; MC_CHECK(((std::is_same_v<tl::tuple_to_type_list_t<P>, tl::type_list<int, char const &>> && std::is_same_v<tl::tuple_to_type_list_t<P const>, tl::type_list<int const, char const &>>)), "pair to list"); MC_CHECK(((std::is_same_v<tl::tuple_to_type_list_t<std::array<long, 3>>, tl::type_list<long, long, long>> && std::is_same_v<tl::tuple_to_type_list_t<std::array<long, 0>>, tl::type_list<>>)), "array to list"); MC_CHECK(((std::is_same_v<tl::tuple_to_type_list_t<std::tuple<int &&, void *, tl::type_list<>>>, tl::type_list<int &&, void *, tl::type_list<>>>)), "tuple to list"); }
	if (what == 4) { MC_CHECK(((std::is_same_v<tl::concat_t<>, tl::type_list<>> && std::is_same_v<tl::flatten_t<tl::type_list<>>, tl::type_list<>>)), "concat of nothing"); MC_CHECK(((std::is_same_v<tl::unpack_t<std::pair<int, char>>, tl::type_list<int, char>> && std::is_same_v<tl::apply_t<tl::type_list<int, char>, std::pair>, std::pair<int, char>> && std::is_same_v<tl::apply_t<tl::type_list<char>, std::optional>, std::optional<char>>)), "fixed-arity templates"); }
	if (what == 5) { MC_CHECK(((std::is_same_v<tl::opt_t<nothing>, tl::nullopt> && std::is_same_v<tl::opt_t<std::type_identity<int>>, int> && std::is_same_v<tl::opt_t<std::type_identity<void>>, void>)), "opt_t"); MC_CHECK(((tl::opt_v<nothing> == tl::nullopt{} && tl::opt_v<std::type_identity<int>> == tl::nullopt{} && tl::opt_v<only_value> == 3 && tl::opt_v<both> == 4 && std::is_same_v<tl::opt_t<both>, char> && std::is_same_v<tl::opt_t<only_value>, tl::nullopt>)), "opt_v"); }
}
#if PART == 0
// longer lists: every position of lists of 5 to 8 and of 12
template<size_t v> using K = std::integral_constant<size_t, v>;
template<size_t n, size_t dup_at, size_t dup_of> struct nums { template<typename I> struct mk; template<size_t... i> struct mk<std::index_sequence<i...>> { using t = tl::type_list<K<(i == dup_at ? dup_of : i)>...>; }; using t = typename mk<std::make_index_sequence<n>>::t; };
template<size_t wanted> inline constexpr auto is_num = []<typename T>(std::type_identity<T>) { return T::value == wanted; };
template<size_t n, size_t i, size_t j> static void dup() {
	using D = typename nums<n, i, j>::t; vec d; for (size_t k = 0; k < n; ++k) d.push_back(100 + (int) (k == i ? j : k));
	same(codes<tl::unique_t<D>>(), uniq(d), "unique with a duplicate"); MC_CHECK((tl::all_distinct_v<D> == (i == j) && tl::count_v<D, K<j>> == 1 + (i != j) && tl::count_v<D, K<i>> == (i == j)), "a duplicate of element %zu at %zu", j, i); MC_CHECK((tl::position_v<D, is_num<j>> == (i < j ? i : j)), "position of the first of two equal elements");
}
template<size_t n, size_t i, size_t... j> static void dup_row(std::index_sequence<j...>) { (dup<n, i, j>(), ...); }
template<size_t n> static void long_list() {
	using TL = typename nums<n, n, 0>::t; vec m; for (size_t i = 0; i < n; ++i) m.push_back(100 + (int) i);
	MC_CHECK((tl::size_v<TL> == n && code_<tl::last_t<TL>>::v == 99 + (int) n && tl::all_distinct_v<TL>), "size, last or all_distinct of a list of %zu", n); same(codes<tl::unique_t<TL>>(), m, "unique of a longer list");
	[&]<size_t... i>(std::index_sequence<i...>) { ([&] {
		MC_CHECK((tl::position_v<TL, is_num<i>> == i), "position of element %zu of %zu: %zu", i, n, tl::position_v<TL, is_num<i>>); MC_CHECK((code_<tl::nth_t<TL, i>>::v == 100 + (int) i && tl::find_if_t<TL, is_num<i>>::value == i && tl::count_v<TL, K<i>> == 1 && tl::contains_v<TL, K<i>> && tl::any_of_v<TL, is_num<i>> && tl::size_v<tl::filter_t<TL, is_num<i>>> == 1), "element %zu of %zu", i, n);
		same(codes<tl::take_t<TL, i>>(), vec(m.begin(), m.begin() + (long) i), "take from a longer list"); same(codes<tl::drop_t<TL, i>>(), vec(m.begin() + (long) i, m.end()), "drop from a longer list");
		if constexpr (n <= 6) dup_row<n, i>(std::make_index_sequence<n>{});
	}(), ...); }(std::make_index_sequence<n>{});
	MC_CHECK((!tl::contains_v<TL, K<n>> && !tl::any_of_v<TL, is_num<n>> && !has_value<tl::position<TL, is_num<n>>>), "a missing element is found in a list of %zu", n);
	size_t at = 0; tl::for_each<TL>([&]<typename T>(std::type_identity<T>) { MC_CHECK((T::value == at), "for_each visits %zu after %zu", (size_t) T::value, at); ++at; }); MC_CHECK((at == n), "for_each visits %zu elements of %zu", at, n);
}
static void long_lists() { int n = choose(5); op("list %d", n); state((u64) n); [&]<size_t... k>(std::index_sequence<k...>) { ((n == (int) k ? long_list<k == 4 ? 12 : k + 5>() : void()), ...); }(std::make_index_sequence<5>{}); }
// a function object passed as a temporary is not used up before its last call
struct usable { vec *v; bool used = false; template<typename T> void operator()(std::type_identity<T>) & { if (used) fail("a function object is called after it was used up"); v->push_back(code_<T>::v); } template<typename T> void operator()(std::type_identity<T>) && { if (used) fail("a function object is used up twice"); used = true; v->push_back(code_<T>::v); } };
static void temporaries() { vec seen; op("temporaries"); state(1); tl::for_each<tl::type_list<K<1>, K<5>, K<3>>>(usable{&seen}); same(seen, vec{101, 105, 103}, "for_each of a temporary"); }
#endif
using tab = std::vector<std::pair<int, void (*)()>>;
template<int from, int to, template<int> typename F> static void fill(tab &t) { [&]<int... n>(std::integer_sequence<int, n...>) { (t.push_back({from + n, &F<from + n>::go}), ...); }(std::make_integer_sequence<int, to - from>{}); }
template<int n> struct BAS { static void go() { basics<n>(); } }; template<int n> struct PRE { static void go() { predicates<n>(); } }; template<int n> struct COM { static void go() { compositions<n>(); } }; template<int n> struct PAI { static void go() { pairs_with<n>(std::make_integer_sequence<int, 4>{}); } };
template<template<int> typename F, int from3, int to3> static tab upto2() { tab t; fill<1, 2, F>(t); fill<4, 8, F>(t); fill<16, 32, F>(t); if constexpr (to3 > from3) fill<from3, to3, F>(t); return t; }
template<template<int> typename F, int from, int to> static tab only() { tab t; fill<from, to, F>(t); return t; }
int main(int argc, char **argv) {
	std::vector<scenario> s; auto add = [&](char const *what, tab t) { s.push_back({what, [what, t] { table(what, t); }}); };
#if PART == 0 // lists of <= 3 types
	add("operations", upto2<BAS, 64, 128>()); s.push_back({"generation", generated}); s.push_back({"longer lists", long_lists}); s.push_back({"temporaries", temporaries});
#elif PART == 1
	add("pairs", upto2<PAI, 0, 0>()); add("compositions", upto2<COM, 64, 80>());
#elif PART == 2
	add("predicates", upto2<PRE, 64, 96>());
#elif PART == 3
	add("predicates", only<PRE, 96, 128>());
#elif PART == 4
	add("compositions", only<COM, 80, 104>());
#elif PART == 5
	add("compositions", only<COM, 104, 128>());
#elif PART < 20 // lists of 4 types: operations
	add("operations", only<BAS, 256 + (PART - 10) * 64, 256 + (PART - 9) * 64>());
#elif PART < 30
	add("predicates", only<PRE, 256 + (PART - 20) * 32, 256 + (PART - 19) * 32>());
#endif
	return run(argc, argv, s);
}
