// switch_cases, switch_bool, for_range, for_values, for_types: every instantiation within bounds with every run-time value.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/switch_cases.hpp>
#include <dice/template-library/for.hpp>
#include <array>
#include <limits>
#include <memory>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
#ifndef PART
#define PART 0
#endif
template<typename T> constexpr T tmin = std::numeric_limits<T>::min();
template<typename T> constexpr T tmax = std::numeric_limits<T>::max();
using wide = __int128;
template<typename T> static std::string name() { std::string s = std::is_same_v<T, bool> ? "bool" : std::is_same_v<T, char> ? "char" : std::is_same_v<T, char16_t> ? "char16_t" : std::is_same_v<T, wchar_t> ? "wchar_t" : (std::is_signed_v<T> ? "i" : "u") + std::to_string(sizeof(T) * 8); return s; }

// what was called, with which constants (their type is checked where they arrive)
struct rec { int calls = 0, defaults = 0; std::vector<wide> vals; };
static rec R; static int cell[2]; static std::array<int, 1> ref_slot;
static bool bad_type;
template<typename T, typename C> constexpr wide take(C) { if constexpr (!std::is_same_v<typename C::value_type, T> || !std::is_same_v<C, std::integral_constant<T, C::value>>) bad_type = true; return (wide) C::value; }
// bodies of every result kind
template<typename T> struct body_int { long operator()(auto c) { ++R.calls; wide v = take<T>(c); R.vals.push_back(v); return (long) (1000 + v % 1000); } };
template<typename T> struct body_void { void operator()(auto c) const { ++R.calls; R.vals.push_back(take<T>(c)); } };
template<typename T> struct body_ref { int &operator()(auto c) { ++R.calls; R.vals.push_back(take<T>(c)); return cell[0]; } };
template<typename T> struct body_rref { std::unique_ptr<int> &&operator()(auto c) { ++R.calls; R.vals.push_back(take<T>(c)); return std::move(keep); } static inline std::unique_ptr<int> keep; };
template<typename T> struct body_uptr { std::unique_ptr<wide> operator()(auto c) { ++R.calls; R.vals.push_back(take<T>(c)); return std::make_unique<wide>((wide) c.value); } };
template<typename T> struct body_once { std::unique_ptr<int> only = std::make_unique<int>(7); int operator()(auto c) && { ++R.calls; R.vals.push_back(take<T>(c)); return *only; } };
struct once_default { std::unique_ptr<int> p = std::make_unique<int>(9); int operator()() && { ++R.defaults; return *p; } };
template<typename T> struct body_throw { int operator()(auto c) { ++R.calls; R.vals.push_back(take<T>(c)); throw boom{}; } };
static constexpr int KINDS = 7;

static void begin() { harness h; R = {}; bad_type = false; }
static void expect(char const *what, wide v, bool in, int defaults_allowed = 1) {
	++E.transitions; ++E.beat;
	MC_CHECK(!bad_type, "%s of %lld: the constant does not have the type of the interval", what, (long long) v);
	MC_CHECK(R.calls == (in ? 1 : 0) && R.defaults == (in ? 0 : defaults_allowed), "%s of %lld: cases function called %d times, default %d times", what, (long long) v, R.calls, R.defaults);
	if (in) MC_CHECK(R.vals.size() == 1 && R.vals[0] == v, "%s of %lld: called with the constant %lld", what, (long long) v, (long long) R.vals[0]);
}
// the compile-time instantiation: first, last, whether the form switch_cases<last> is used, whether there is a default
template<typename T, T first, T last, bool one, bool dflt, typename F, typename D> static decltype(auto) call(T v, F &&f, D &&d) {
	if constexpr (one && dflt) return dtl::switch_cases<last>(v, std::forward<F>(f), std::forward<D>(d));
	else if constexpr (one) return dtl::switch_cases<last>(v, std::forward<F>(f));
	else if constexpr (dflt) return dtl::switch_cases<first, last>(v, std::forward<F>(f), std::forward<D>(d));
	else return dtl::switch_cases<first, last>(v, std::forward<F>(f));
}
template<typename T, T first, T last, bool one, bool dflt> static void one_value(T v, int kind) {
	constexpr wide lo = std::min<wide>(first, last), hi = std::max<wide>(first, last);
	bool in = lo <= (wide) v && (wide) v < hi;
	if (!dflt && !in) return;
	if constexpr (!dflt && lo == hi) return; else if constexpr (hi - lo > 20) { // long intervals: one kind of body
		if (kind != 0) return;
		begin(); body_int<T> f; long r = call<T, first, last, one, dflt>(v, f, [] { ++R.defaults; return -5L; }); expect("switch_cases", v, in); MC_CHECK(r == (in ? (long) (1000 + (wide) v % 1000) : -5), "switch_cases of %lld: returned %ld", (long long) v, r);
	} else {
	begin(); char const *w = one ? (dflt ? "switch_cases<last>" : "switch_cases<last> without default") : (dflt ? "switch_cases" : "switch_cases without default");
	switch (kind) {
	case 0: { auto d = [] { ++R.defaults; return -5L; }; body_int<T> f; static_assert(std::is_same_v<decltype(call<T, first, last, one, dflt>(v, f, d)), long>); long r = call<T, first, last, one, dflt>(v, f, d); expect(w, v, in); MC_CHECK(r == (in ? (long) (1000 + (wide) v % 1000) : -5), "%s of %lld: returned %ld", w, (long long) v, r); break; }
	case 1: { body_void<T> const f; static_assert(std::is_void_v<decltype(call<T, first, last, one, dflt>(v, f, [] { ++R.defaults; }))>); call<T, first, last, one, dflt>(v, f, [] { ++R.defaults; }); expect(w, v, in); break; }
	case 2: { body_ref<T> f; auto d = []() -> int & { ++R.defaults; return cell[1]; }; static_assert(std::is_same_v<decltype(call<T, first, last, one, dflt>(v, f, d)), int &>); int &r = call<T, first, last, one, dflt>(v, f, d); expect(w, v, in); MC_CHECK(&r == &cell[in ? 0 : 1], "%s of %lld: returned another reference", w, (long long) v); break; }
	case 3: { auto d = []() -> std::unique_ptr<wide> { ++R.defaults; return nullptr; }; auto r = call<T, first, last, one, dflt>(v, body_uptr<T>{}, d); expect(w, v, in); MC_CHECK((r != nullptr) == in && (!in || *r == (wide) v), "%s of %lld: returned something else", w, (long long) v); break; }
	case 4: { std::unique_ptr<int> other; auto d = [&]() -> std::unique_ptr<int> && { ++R.defaults; return std::move(other); }; body_rref<T> f; static_assert(std::is_same_v<decltype(call<T, first, last, one, dflt>(v, f, d)), std::unique_ptr<int> &&>); auto &&r = call<T, first, last, one, dflt>(v, f, d); expect(w, v, in); MC_CHECK(&r == (in ? &body_rref<T>::keep : &other), "%s of %lld: returned another object", w, (long long) v); break; }
	case 5: { once_default once; int r = call<T, first, last, one, dflt>(v, body_once<T>{}, std::move(once)); expect(w, v, in); MC_CHECK(r == (in ? 7 : 9), "%s of %lld: function object that can only be called once returned %d", w, (long long) v, r); break; }
	case 6: { bool threw = false; body_throw<T> f; int r = 0; try { r = call<T, first, last, one, dflt>(v, f, []() -> int { ++R.defaults; throw boom{}; }); } catch (boom const &) { threw = true; } expect(w, v, in); MC_CHECK(threw, "%s of %lld: the exception was lost (%d)", w, (long long) v, r); break; }
	}
	}
}
template<typename T> static std::vector<T> values(wide lo, wide hi) {
	std::vector<T> r;
	if constexpr (sizeof(T) == 1) { for (wide v = tmin<T>; v <= tmax<T>; ++v) r.push_back((T) v); }
	else {
		auto add = [&](wide v) { if (v >= tmin<T> && v <= tmax<T> && std::find(r.begin(), r.end(), (T) v) == r.end()) r.push_back((T) v); };
		for (wide v = lo - 3; v <= hi + 3; ++v) add(v);
		for (wide b : {(wide) 0, (wide) tmin<T>, (wide) tmax<T>, (wide) 127, (wide) 128, (wide) 255, (wide) 256, (wide) 32767, (wide) 65535, (wide) 65536, ((wide) 1) << 31, ((wide) 1) << 32}) for (wide d = -2; d <= 2; ++d) { add(b + d); add(-b + d); add(lo + b + d); add(lo - b + d); }
	}
	return r;
}
template<typename T, T first, T last> static void pair_check(int kind, int form) {
	for (T v : values<T>(std::min<wide>(first, last), std::max<wide>(first, last))) {
		if (form == 0) one_value<T, first, last, false, true>(v, kind);
		if (form == 1) one_value<T, first, last, false, false>(v, kind);
		if constexpr (first == T{}) { if (form == 2) one_value<T, first, last, true, true>(v, kind); if (form == 3) one_value<T, first, last, true, false>(v, kind); }
	}
}
// ---- for_range
struct throwing_body { int at; std::vector<wide> *out; template<typename C> void operator()(C) { if ((int) out->size() == at) throw boom{}; out->push_back((wide) C::value); } };
template<typename T> struct range_body { int *type_errors; std::vector<wide> *out; template<typename C> void operator()(C c) { if (!std::is_same_v<C, std::integral_constant<T, C::value>>) ++*type_errors; out->push_back((wide) c.value); } };
template<typename T> struct fixed_body { wide *out; size_t *n; constexpr void operator()(auto c) { out[(*n)++] = (wide) c.value; } };
template<typename T, T first, T last> static void range_check() {
	std::vector<wide> want, got; int te = 0;
	if (first <= last) for (wide v = first; v < (wide) last; ++v) want.push_back(v); else for (wide v = first; v > (wide) last; --v) want.push_back(v);
	++E.transitions; ++E.beat;
	range_body<T> b{&te, &got}; dtl::for_range<first, last>(b);
	MC_CHECK(te == 0, "for_range<%lld, %lld> of %s: a constant does not have the type of the bounds", (long long) first, (long long) last, name<T>().c_str());
	MC_CHECK(got == want, "for_range<%lld, %lld> of %s visited %zu constants, or not in order", (long long) first, (long long) last, name<T>().c_str(), got.size());
	got.clear(); dtl::for_range<first, last>(range_body<T>{&te, &got}); MC_CHECK(got == want && te == 0, "for_range with a temporary function object");
	if (want.size() < 12) for (int at = 0; at <= (int) want.size(); ++at) {
		got.clear(); bool threw = false; throwing_body tb{at, &got}; try { dtl::for_range<first, last>(tb); } catch (boom const &) { threw = true; }
		MC_CHECK(threw == (at < (int) want.size()) && got.size() == (size_t) at && std::equal(got.begin(), got.end(), want.begin()), "for_range<%lld, %lld>: the exception of call %d ended up wrong", (long long) first, (long long) last, at);
	}
	// the same in a constant expression
	if constexpr ((first < last ? (wide) last - first : (wide) first - last) < 12) {
		constexpr auto ct = [] { std::array<wide, 12> o{}; size_t n = 0; dtl::for_range<first, last>(fixed_body<T>{o.data(), &n}); return std::pair{o, n}; }();
		MC_CHECK(ct.second == want.size() && std::equal(want.begin(), want.end(), ct.first.begin()), "for_range<%lld, %lld> at compile time", (long long) first, (long long) last);
	}
}
// ---- all pairs over a list of bounds
using fn = void (*)(int, int); using fn0 = void (*)();
template<typename T, T... bs> struct bounds {
	static constexpr std::array<T, sizeof...(bs)> b{bs...}; static constexpr size_t n = sizeof...(bs);
	template<size_t I> static constexpr bool small() { wide d = (wide) b[I / n] - (wide) b[I % n]; return (d < 0 ? -d : d) <= 300; }
	template<size_t I> static void sw(int k, int f) { if constexpr (small<I>()) pair_check<T, b[I / n], b[I % n]>(k, f); }
	template<size_t I> static void rg() { if constexpr (small<I>()) range_check<T, b[I / n], b[I % n]>(); }
	static void run_switch() {
		static constexpr auto t = []<size_t... I>(std::index_sequence<I...>) { return std::array<fn, n * n>{&sw<I>...}; }(std::make_index_sequence<n * n>{});
		size_t i = (size_t) choose(n * n); int f = choose(4), k = choose(KINDS);
		op("%s: switch_cases<%lld, %lld> form %d result kind %d, all values", name<T>().c_str(), (long long) b[i / n], (long long) b[i % n], f, k); state(mix(mix(i, (u64) f), (u64) k)); observe(i * 100 + (u64) f * 10 + (u64) k);
		t[i](k, f);
	}
	static void run_range() {
		static constexpr auto t = []<size_t... I>(std::index_sequence<I...>) { return std::array<fn0, n * n>{&rg<I>...}; }(std::make_index_sequence<n * n>{});
		size_t i = (size_t) choose(n * n); op("%s: for_range<%lld, %lld>", name<T>().c_str(), (long long) b[i / n], (long long) b[i % n]); state(i); observe(i); t[i]();
	}
	static void add(std::vector<scenario> &s) {
		s.push_back({"switch," + name<T>(), run_switch}); s.push_back({"range," + name<T>(), run_range});
	}
};
// ---- for_values, for_types: every list over an alphabet
enum class en : short { a = 3, b = -1 };
struct lit { int x; constexpr bool operator==(lit const &) const = default; };
template<auto... xs> struct vlist {};
template<size_t D> constexpr auto digit() { if constexpr (D == 0) return 1; else if constexpr (D == 1) return -1L; else if constexpr (D == 2) return 'a'; else if constexpr (D == 3) return true; else if constexpr (D == 4) return en::b; else return lit{4}; }
constexpr size_t ALPHA = 6;
constexpr size_t pw(size_t b, size_t e) { size_t r = 1; while (e--) r *= b; return r; }
struct vbody { int *n; size_t code; int *bad; int throw_at = -1; template<typename C> void operator()(C) {
	if (*n == throw_at) throw boom{};
	size_t d = code; for (int i = 0; i < *n; ++i) d /= ALPHA; d %= ALPHA; ++*n;
	bool ok = [&]<size_t... I>(std::index_sequence<I...>) { return ((I == d && std::is_same_v<typename C::value_type, decltype(digit<I>())> && [] { if constexpr (std::is_same_v<typename C::value_type, decltype(digit<I>())>) return C::value == digit<I>(); else return false; }()) || ...); }(std::make_index_sequence<ALPHA>{});
	if (!ok) ++*bad; } };
template<size_t N, size_t Code> static void values_check() {
	[]<size_t... P>(std::index_sequence<P...>) {
		int n = 0, bad = 0; ++E.transitions; ++E.beat;
		dtl::for_values<digit<Code / pw(ALPHA, P) % ALPHA>()...>(vbody{&n, Code, &bad});
		MC_CHECK(n == (int) N && bad == 0, "for_values over list %zu of length %zu: %d calls, %d of them with the wrong constant", Code, N, n, bad);
		for (int at = 0; at < (int) N; ++at) { n = bad = 0; bool threw = false; vbody b{&n, Code, &bad, at}; try { dtl::for_values<digit<Code / pw(ALPHA, P) % ALPHA>()...>(b); } catch (boom const &) { threw = true; } MC_CHECK(threw && n == at && !bad, "for_values: the exception of call %d", at); }
	}(std::make_index_sequence<N>{});
}
struct inc; // incomplete
template<size_t D> struct ty; template<> struct ty<0> { using t = int; }; template<> struct ty<1> { using t = void; }; template<> struct ty<2> { using t = int const &; }; template<> struct ty<3> { using t = inc; }; template<> struct ty<4> { using t = int[]; }; template<> struct ty<5> { using t = std::string &&; };
struct tbody { int *n; size_t code; int *bad; int throw_at = -1; template<typename T> void operator()() {
	if (*n == throw_at) throw boom{};
	size_t d = code; for (int i = 0; i < *n; ++i) d /= ALPHA; d %= ALPHA; ++*n;
	bool ok = [&]<size_t... I>(std::index_sequence<I...>) { return ((I == d && std::is_same_v<T, typename ty<I>::t>) || ...); }(std::make_index_sequence<ALPHA>{});
	if (!ok) ++*bad; } };
template<size_t N, size_t Code> static void types_check() {
	[]<size_t... P>(std::index_sequence<P...>) {
		int n = 0, bad = 0; ++E.transitions; ++E.beat;
		dtl::for_types<typename ty<Code / pw(ALPHA, P) % ALPHA>::t...>(tbody{&n, Code, &bad});
		MC_CHECK(n == (int) N && bad == 0, "for_types over list %zu of length %zu: %d calls, %d of them with the wrong type", Code, N, n, bad);
		for (int at = 0; at < (int) N; ++at) { n = bad = 0; bool threw = false; tbody b{&n, Code, &bad, at}; try { dtl::for_types<typename ty<Code / pw(ALPHA, P) % ALPHA>::t...>(b); } catch (boom const &) { threw = true; } MC_CHECK(threw && n == at && !bad, "for_types: the exception of call %d", at); }
	}(std::make_index_sequence<N>{});
}
template<size_t N, bool types> static void lists() {
	constexpr size_t C = pw(ALPHA, N);
	static constexpr auto t = []<size_t... I>(std::index_sequence<I...>) { if constexpr (types) return std::array<fn0, C>{&types_check<N, I>...}; else return std::array<fn0, C>{&values_check<N, I>...}; }(std::make_index_sequence<C>{});
	size_t i = (size_t) choose(C); op("%s over list %zu of length %zu", types ? "for_types" : "for_values", i, N); state(mix(N, i)); observe(mix(N, i)); t[i]();
}
static void bools() {
	int v = choose(2), k = choose(5); op("switch_bool(%d) result kind %d", v, k); state((u64) (v * 10 + k)); observe((u64) (v * 10 + k)); begin();
	switch (k) {
	case 0: { body_int<bool> f; long r = dtl::switch_bool(v, f); expect("switch_bool", v, true); MC_CHECK(r == 1000 + v, "switch_bool returned %ld", r); break; }
	case 1: dtl::switch_bool(v, body_void<bool>{}); expect("switch_bool", v, true); break;
	case 2: { body_ref<bool> f; int &r = dtl::switch_bool(v, f); expect("switch_bool", v, true); MC_CHECK(&r == &cell[0], "switch_bool returned another reference"); break; }
	case 3: { auto r = dtl::switch_bool(v, body_uptr<bool>{}); expect("switch_bool", v, true); MC_CHECK(*r == v, "switch_bool result"); break; }
	case 4: { int r = dtl::switch_bool(v, body_once<bool>{}); expect("switch_bool", v, true); MC_CHECK(r == 7, "switch_bool result"); break; }
	}
}
// exceptions pass whichever of the call operators is used and whichever of them are noexcept (mask M: lvalue, const lvalue, rvalue, const rvalue)
static int boomed_in; template<bool NX> static void blow() noexcept(NX) { ++R.calls; if constexpr (!NX) { ++boomed_in; throw boom{}; } }
template<int M> struct qual { template<typename C> void operator()(C) & noexcept(M & 1) { blow<(M & 1) != 0>(); } template<typename C> void operator()(C) const & noexcept((M & 2) != 0) { blow<(M & 2) != 0>(); } template<typename C> void operator()(C) && noexcept((M & 4) != 0) { blow<(M & 4) != 0>(); } template<typename C> void operator()(C) const && noexcept((M & 8) != 0) { blow<(M & 8) != 0>(); }
	template<typename T> void operator()() & noexcept(M & 1) { blow<(M & 1) != 0>(); } template<typename T> void operator()() const & noexcept((M & 2) != 0) { blow<(M & 2) != 0>(); } template<typename T> void operator()() && noexcept((M & 4) != 0) { blow<(M & 4) != 0>(); } template<typename T> void operator()() const && noexcept((M & 8) != 0) { blow<(M & 8) != 0>(); } };
template<int M> struct dflt_q { void operator()() & noexcept(M & 1) { blow<(M & 1) != 0>(); } void operator()() const & noexcept((M & 2) != 0) { blow<(M & 2) != 0>(); } void operator()() && noexcept((M & 4) != 0) { blow<(M & 4) != 0>(); } void operator()() const && noexcept((M & 8) != 0) { blow<(M & 8) != 0>(); } };
template<int M> static void quals(int cat, int form) {
	R = {}; boomed_in = 0; bool threw = false; qual<M> f; dflt_q<M> d; qual<M> const cf; dflt_q<M> const cd;
	auto with = [&](auto &&fn) { switch (cat) { case 0: fn(f, d); break; case 1: fn(cf, cd); break; case 2: fn(std::move(f), std::move(d)); break; case 3: fn(std::move(cf), std::move(cd)); break; } };
	try { with([&]<typename F, typename D>(F &&fn, D &&df) { switch (form) {
		case 0: dtl::for_values<1, 'a', false>((F &&) fn); break; case 1: dtl::for_types<int, void, char>((F &&) fn); break; case 2: dtl::for_range<0, 3>((F &&) fn); break; case 3: dtl::for_range<3, 0>((F &&) fn); break;
		case 4: dtl::switch_cases<0, 3>(1, (F &&) fn, (D &&) df); break; case 5: dtl::switch_cases<0, 3>(5, (F &&) fn, (D &&) df); break; case 6: dtl::switch_cases<3>(2, (F &&) fn); break; case 7: dtl::switch_bool(true, (F &&) fn); break; } }); } catch (boom const &) { threw = true; }
	MC_CHECK(threw == (boomed_in != 0) && boomed_in <= 1 && R.calls == (threw || form >= 4 ? 1 : 3), "form %d, category %d, noexcept mask %d: %d calls, %d exceptions thrown, the caller saw %d", form, cat, M, R.calls, boomed_in, threw);
}
static void qualified() { int m = choose(16), cat = choose(4), form = choose(8); op("noexcept mask %d, category %d, form %d", m, cat, form); state((u64) (m * 32 + cat * 8 + form)); [&]<size_t... I>(std::index_sequence<I...>) { ((m == (int) I ? quals<(int) I>(cat, form) : void()), ...); }(std::make_index_sequence<16>{}); }
static_assert(dtl::switch_cases<3, -2>(-2, [](auto c) { return c.value * 2; }, [] { return 77; }) == -4 && dtl::switch_cases<3, -2>(3, [](auto c) { return c.value * 2; }, [] { return 77; }) == 77 && dtl::switch_bool(true, [](auto c) { return c.value ? 5 : 6; }) == 5);
int main(int argc, char **argv) {
	std::vector<scenario> s;
#if PART == 0
	bounds<std::int8_t, -128, -127, -126, -1, 0, 1, 2, 126, 127>::add(s);
#elif PART == 1
	bounds<std::uint8_t, 0, 1, 2, 5, 127, 128, 129, 254, 255>::add(s);
#elif PART == 2
	bounds<int, -4, -3, -2, -1, 0, 1, 2, 3, 4>::add(s);
#elif PART == 3
	bounds<unsigned, 0, 1, 2, 3, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff>::add(s);
#elif PART == 4
	bounds<std::int64_t, tmin<std::int64_t>, tmin<std::int64_t> + 1, tmin<std::int64_t> + 3, -1, 0, 2, tmax<std::int64_t> - 2, tmax<std::int64_t>>::add(s);
#elif PART == 5
	bounds<std::uint64_t, 0, 1, 3, tmax<std::uint64_t> - 4, tmax<std::uint64_t> - 1, tmax<std::uint64_t>>::add(s); bounds<bool, false, true>::add(s); s.push_back({"bools", bools});
#elif PART == 6
	bounds<int, tmin<int>, tmin<int> + 1, tmin<int> + 4, -7, 7, tmax<int> - 3, tmax<int>>::add(s);
#elif PART == 7
	bounds<std::int16_t, -32768, -32767, -32765, -1, 0, 3, 32764, 32767>::add(s); bounds<char, 0, 'A', 'C', 127>::add(s);
#elif PART == 8
	bounds<std::uint16_t, 0, 1, 4, 32767, 32769, 65533, 65535>::add(s); bounds<char16_t, 0, 2, 255, 65535, 65533>::add(s); bounds<wchar_t, L'\0', L'\2', L'z', L'y'>::add(s);
#else
	[&]<size_t... N>(std::index_sequence<N...>) { (s.push_back({"values,length" + std::to_string(N), lists<N, false>}), ...); (s.push_back({"types,length" + std::to_string(N), lists<N, true>}), ...); }(std::make_index_sequence<4 + THOROUGH>{});
	s.push_back({"qualified", qualified});
#endif
	return run(argc, argv, s);
}
