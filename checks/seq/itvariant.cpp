// integral_template_variant: all operation sequences over three variants, several index intervals, every throwing point.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/integral_template_variant.hpp>
#include <array>
#include <compare>
#include <memory>
#include <optional>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
#ifndef DEPTH
#define DEPTH 0
#endif
#ifndef PART
#define PART 0
#endif
static int threw; // faults that happened in the running operation
static int relocated; // copies and moves of alternatives in the running operation
static void maybe() { harness h; if (fault("an element operation throws")) { ++threw; throw boom{}; } }
enum policy { PLAIN, TRACK, THROWS, THROWMOVE, MOVEONLY };
// alternatives: remember which index they belong to
template<long ix, policy P> struct alt {
	int v; int *heap = nullptr; static constexpr int tag = 100 + (int) ix;
	void own(int x) { v = x; if constexpr (P != PLAIN) { heap = new int(x); L.add(this, tag); } }
	void use() const { if constexpr (P != PLAIN) { L.use(this, tag); if (*heap != v) fail("an alternative lost its value"); } }
	alt() : alt(0) {} explicit alt(int x) { if constexpr (P >= THROWS) maybe(); own(x); } alt(int a, int b) : alt(a * 10 + b) {}
	alt(alt const &o) noexcept(P < THROWS) requires (P != MOVEONLY) { ++relocated; o.use(); if constexpr (P >= THROWS) maybe(); own(o.v); }
	alt(alt &&o) noexcept(P != THROWMOVE) { ++relocated; o.use(); if constexpr (P == THROWMOVE) maybe(); own(o.v); o.set(-7); }
	alt &operator=(alt const &o) noexcept(P < THROWS) requires (P != MOVEONLY) { ++relocated; use(); o.use(); if constexpr (P >= THROWS) maybe(); set(o.v); return *this; }
	alt &operator=(alt &&o) noexcept(P != THROWMOVE) { ++relocated; use(); o.use(); if constexpr (P == THROWMOVE) maybe(); int x = o.v; o.set(-7); set(x); return *this; }
	~alt() { if constexpr (P != PLAIN) { L.del(this, tag); delete heap; } }
	void set(int x) { v = x; if (heap) *heap = x; }
	bool operator==(alt const &o) const noexcept { return v == o.v; } auto operator<=>(alt const &o) const noexcept { return v <=> o.v; }
};
template<long ix> struct alt<ix, PLAIN> { int v = 0; void use() const {} alt() = default; explicit alt(int x) : v(x) {} alt(int a, int b) : v(a * 10 + b) {} auto operator<=>(alt const &) const = default; };
template<typename T> requires (T::hashed_tag > 0) struct std::hash<T> { size_t operator()(T const &a) const noexcept { return (size_t) (a.v * 31 + T::hashed_tag); } };

template<typename I, I first, I last, policy P> struct machine {
	template<I ix> using M = alt<(long) ix, P>;
	template<I ix> struct wrapped : alt<(long) ix, P> { static constexpr int hashed_tag = 1000 + (int) ix; using alt<(long) ix, P>::alt; };
	using V = dtl::integral_template_variant<first, last, wrapped>;
	static constexpr int N = first < last ? (int) last - (int) first : (int) first - (int) last;
	static constexpr I at(int k) { return (I) (first < last ? (int) first + k : (int) first - k); }
	static constexpr bool copyable = P != MOVEONLY, simple = P == PLAIN || P == TRACK;
	struct model { int k = 0, v = 0; bool valueless = false; auto operator<=>(model const &) const = default; };
	std::optional<V> a[3]; model m[3]; int extra = 0; // live objects besides the three variants'
	// applies f.template operator()<k>() for the run-time k
	template<typename F> static void with(int k, F f) { [&]<int... K>(std::integer_sequence<int, K...>) { ((k == K ? (void) f.template operator()<K>() : (void) 0), ...); }(std::make_integer_sequence<int, N>{}); }

	void check(int i, char const *after) {
		harness h; V &x = *a[i]; V const &c = x; model const &w = m[i];
		if (w.valueless) { MC_CHECK(c.to_underlying().valueless_by_exception(), "after %s: variant %d holds a value", after, i); with(0, [&]<int K> { try { (void) x.template get<at(K)>(); fail("get of a valueless variant succeeds"); } catch (std::bad_variant_access const &) {} }); return; }
		MC_CHECK(c.index() == at(w.k), "after %s: variant %d has index %ld, %ld expected", after, i, (long) c.index(), (long) at(w.k));
		static_assert(std::is_same_v<decltype(c.index()), I>);
		for (int k = 0; k < N; ++k) with(k, [&]<int K> {
			constexpr I ix = at(K); static_assert(std::is_same_v<typename V::template value_type<ix>, wrapped<ix>>);
			static_assert(std::is_same_v<decltype(x.template get<ix>()), wrapped<ix> &> && std::is_same_v<decltype(c.template get<ix>()), wrapped<ix> const &> && std::is_same_v<decltype(std::move(x).template get<ix>()), wrapped<ix> &&>);
			MC_CHECK(c.template holds_alternative<ix>() == (K == w.k) && c.template holds_alternative<wrapped<ix>>() == (K == w.k), "after %s: variant %d: holds_alternative<%ld>", after, i, (long) ix);
			bool got = true; try { auto &r = x.template get<ix>(); r.use(); MC_CHECK(r.v == w.v && &r == &c.template get<ix>(), "after %s: variant %d holds %d, %d expected", after, i, r.v, w.v); } catch (std::bad_variant_access const &) { got = false; }
			MC_CHECK(got == (K == w.k), "after %s: get<%ld> of variant %d %s", after, (long) ix, i, got ? "succeeds" : "throws");
			bool cgot = true; try { (void) c.template get<ix>(); } catch (std::bad_variant_access const &) { cgot = false; } MC_CHECK(cgot == got, "get of the const variant");
		});
		int seen = 0; long r = x.visit([&](auto &y) { ++seen; y.use(); if (y.v != w.v) fail("visit reaches another value"); bool ok = false; with(w.k, [&]<int K> { ok = std::is_same_v<std::remove_cvref_t<decltype(y)>, wrapped<at(K)>>; }); if (!ok) fail("visit reaches another alternative"); return 5L; }); MC_CHECK(seen == 1 && r == 5, "visit called the visitor %d times", seen);
		c.visit([&](auto const &y) { static_assert(std::is_const_v<std::remove_reference_t<decltype(y)>>); ++seen; }); MC_CHECK(seen == 2, "visit of a const variant"); std::move(x).visit([&](auto &&y) { static_assert(std::is_rvalue_reference_v<decltype(y)>); ++seen; }); MC_CHECK(seen == 3, "visit of a temporary variant");
		MC_CHECK(c.to_underlying().index() == (size_t) w.k, "to_underlying() is at %zu", c.to_underlying().index());
	}
	void check_all(char const *after) {
		for (int i = 0; i < 3; ++i) check(i, after);
		harness h;
		if constexpr (P != MOVEONLY) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
			auto key = [](model const &x) { return x.valueless ? std::pair{-1, 0} : std::pair{x.k, x.v}; };
			auto want = key(m[i]) <=> key(m[j]); auto got = *a[i] <=> *a[j];
			MC_CHECK((*a[i] == *a[j]) == (want == 0) && (got < 0) == (want < 0) && (got > 0) == (want > 0), "after %s: comparison of variants %d and %d", after, i, j);
			if (i <= j && want == 0) MC_CHECK(std::hash<V>{}(*a[i]) == std::hash<V>{}(*a[j]), "after %s: variants %d and %d are equal but have different hashes", after, i, j);
		}
		if constexpr (P != PLAIN) L.expect((size_t) (3 + extra - m[0].valueless - m[1].valueless - m[2].valueless));
	}
	// an operation on variant i that sets it to want; on a throw the variant must be unchanged or valueless
	template<typename F> void apply(int i, model want, char const *what, F f) {
		threw = relocated = 0; bool ex = false;
		try { sut s; f(); } catch (boom const &) { ex = true; }
		if (!std::strncmp(what, "emplace", 7)) MC_CHECK(relocated == 0, "%s: copies or moves an alternative instead of constructing it in place", what);
		MC_CHECK(ex == (threw > 0), "%s: %s", what, ex ? "an exception that nothing threw" : "the exception was lost");
		if (!ex) m[i] = want; else if (a[i]->to_underlying().valueless_by_exception()) m[i].valueless = true;
		check_all(what);
	}
	static std::string show(model const &x) { return x.valueless ? "v" : std::to_string(x.k) + "/" + std::to_string(x.v); }
	void run(int depth) {
		L.reset();
		for (int i = 0; i < 3; ++i) { E.faults_left += 0; int save = E.faults_left; E.faults_left = 0; { sut s; a[i].emplace(); } E.faults_left = save; m[i] = model{}; }
		check_all("default construction");
		for (int d = 0; d < depth; ++d) {
			u64 key = 7; for (auto const &x : m) key = mix(key, (u64) (x.valueless ? 999 : x.k * 50 + x.v)); key = mix(key, (u64) E.faults_left); state(key); if (!fresh(key, depth - d)) { ++E.pruned; break; }
			int o = choose(10); int i = choose(o < 5 ? 2 : 3); V &x = *a[i];
			if (o < 5) { // a new value by index
				int k = choose(N), v = 3 + choose(2); op("variant %d: operation %d with index %ld value %d", i, o, (long) at(k), v);
				with(k, [&]<int K> { constexpr I ix = at(K); using W = wrapped<ix>;
					switch (o) {
					case 0: apply(i, {k, v}, "emplace", [&] { auto &r = x.template emplace<ix>(v); static_assert(std::is_same_v<decltype(r), W &>); if ((void *) &r != (void *) &x.template get<ix>() || r.v != v) fail("emplace returns another object"); }); break;
					case 1: apply(i, {k, v * 10 + 4}, "emplace of two arguments", [&] { x.template emplace<ix>(v, 4); }); break;
					case 2: case 3: { // construct anew, then move in (constructors from a value, from in_place_type)
						bool ok = true; threw = 0; std::optional<W> val; try { sut s; val.emplace(v); } catch (boom const &) { ok = false; } if (!ok) { harness h; val.reset(); check_all("construction of a value"); break; }
						std::optional<V> n; threw = 0; bool ex = false;
						try { sut s; if (o == 2) { if constexpr (copyable) n.emplace(std::as_const(*val)); else n.emplace(std::move(*val)); } else n.emplace(std::move(*val)); } catch (boom const &) { ex = true; }
						MC_CHECK(ex == (threw > 0), "construction from a value: exception"); { sut s; val.reset(); }
						if (!ex) { MC_CHECK(n->index() == ix && n->template get<ix>().v == v, "constructed from a value of index %ld: index %ld", (long) ix, (long) n->index()); extra = 1; apply(i, {k, v}, "move assignment", [&] { x = std::move(*n); }); extra = 0; }
						{ sut s; n.reset(); } check_all("construction from a value"); break; }
					case 4: { std::optional<V> n; threw = relocated = 0; bool ex = false; try { sut s; n.emplace(std::in_place_type<W>, v, 4); } catch (boom const &) { ex = true; } MC_CHECK(relocated == 0, "in-place construction copies or moves an alternative"); MC_CHECK(ex == (threw > 0), "in-place construction: exception");
						if (!ex) { MC_CHECK(n->index() == ix && n->template get<ix>().v == v * 10 + 4, "constructed in place: index %ld", (long) n->index()); extra = 1; if constexpr (copyable) apply(i, {k, v * 10 + 4}, "copy assignment", [&] { x = std::as_const(*n); }); else apply(i, {k, v * 10 + 4}, "move assignment", [&] { x = std::move(*n); }); extra = 0; }
						{ sut s; n.reset(); } check_all("in-place construction"); break; }
					} });
				continue;
			}
			int j = choose(3); V &y = *a[j]; op("variant %d: operation %d with variant %d", i, o, j);
			if (o == 5 || o == 6) { // copy / move assignment
				if (o == 5) { if constexpr (copyable) apply(i, m[j], "copy assignment", [&] { x = std::as_const(y); }); continue; }
				if (i == j) continue; // self-move
				model want = m[j], src = m[j]; apply(i, want, "move assignment", [&] { x = std::move(y); if (!src.valueless) m[j].v = P == PLAIN ? src.v : -7; }); 
			} else if (o == 7 || o == 8) { // copy / move construction
				std::optional<V> n; threw = 0; bool ex = false; if (o == 7 && !copyable) continue;
				try { sut s; if (o == 7) { if constexpr (copyable) n.emplace(std::as_const(y)); } else n.emplace(std::move(y)); } catch (boom const &) { ex = true; }
				MC_CHECK(ex == (threw > 0), "copy or move construction: exception"); model was = m[j];
				if (!ex && o == 8 && !was.valueless && P != PLAIN) m[j].v = -7;
				if (!ex) { MC_CHECK(n->to_underlying().valueless_by_exception() == was.valueless && (was.valueless || n->index() == at(was.k)), "the copy has another index"); if (!was.valueless) with(was.k, [&]<int K> { MC_CHECK(n->template get<at(K)>().v == was.v, "the copy has another value"); }); }
				{ sut s; n.reset(); } check_all("copy or move construction");
			} else { // access through a temporary: moves the element out
				if (m[j].valueless || P == THROWMOVE) continue;
				with(m[j].k, [&]<int K> { auto moved = std::move(y).template get<at(K)>(); MC_CHECK(moved.v == m[j].v, "get of a temporary variant"); }); if (P != PLAIN) m[j].v = -7; check_all("get of a temporary variant");
			}
		}
		for (int i = 0; i < 3; ++i) { sut s; a[i].reset(); }
		L.expect(0);
	}
};
template<typename I, I first, I last, policy P> static scenario sc(char const *name, int depth, int faults) { return {std::string(name) + ",policy" + std::to_string((int) P), [depth] { machine<I, first, last, P> m; m.run(depth); }, faults}; }
template<long ix> struct plain_h { int v; bool operator==(plain_h const &) const noexcept = default; auto operator<=>(plain_h const &) const noexcept = default; };
template<long ix> struct std::hash<plain_h<ix>> { size_t operator()(plain_h<ix> const &a) const noexcept { return (size_t) (a.v * 31 + ix); } };
static void hash_empty() {
	using V = dtl::integral_template_variant<-1l, 2l, plain_h>; int i = choose(9), j = choose(9); op("hash of values %d and %d", i, j); state((u64) (i * 9 + j));
	auto mk = [](int k) { V x; if (k % 3 == 0) x.emplace<-1>(k / 3); else if (k % 3 == 1) x.emplace<0>(k / 3); else x.emplace<1>(k / 3); return x; };
	V a = mk(i), b = mk(j); MC_CHECK((a == b) == (i == j), "equality"); if (a == b) MC_CHECK(std::hash<V>{}(a) == std::hash<V>{}(b), "equal variants have different hashes");
	using Z = dtl::integral_template_variant<4l, 4l, plain_h>; Z z, w{z}; z = w; MC_CHECK(z == w && (z <=> w) == 0 && (std::is_same_v<Z::underlying_type, std::variant<std::monostate>>), "the empty interval");
}
// arguments arrive as they were passed: an lvalue unchanged, a temporary used up exactly once
struct src { int v; bool used = false; };
template<long ix> struct taker {
	int v = 0, cat = 0;
	taker() = default;
	explicit taker(src &s) : v(s.v), cat(1) {} explicit taker(src const &s) : v(s.v), cat(2) {} explicit taker(src &&s) : v(s.v), cat(3) { if (s.used) fail("an argument is used up twice"); s.used = true; }
	taker(src &s, std::unique_ptr<int> p) : v(s.v * 10 + *p), cat(4) {} taker(src &&s, std::unique_ptr<int> p) : v(s.v * 10 + *p), cat(5) { s.used = true; } taker(src const &s, std::unique_ptr<int> p) : v(s.v * 10 + *p), cat(6) {}
	bool operator==(taker const &) const noexcept = default; auto operator<=>(taker const &) const noexcept = default;
};
struct vis { int operator()(auto const &) & { return 1; } int operator()(auto const &) const & { return 2; } int operator()(auto const &) && { return 3; } int operator()(auto const &) const && { return 4; } };
static void forwarding() {
	using V = dtl::integral_template_variant<2l, -1l, taker>; int start = choose(3), k = choose(3), cat = choose(3), two = choose(2), inplace = choose(2); op("a %s built from %s%s at index %d over index %d", inplace ? "variant" : "value", cat == 0 ? "an lvalue" : cat == 1 ? "a constant" : "a temporary", two ? " and a move-only value" : "", 2 - k, 2 - start);
	state((u64) (start + 3 * (k + 3 * (cat + 3 * (two + 2 * inplace)))));
	auto with = [](int n, auto f) { [&]<long... K>(std::integer_sequence<long, K...>) { ((n == K ? (void) f.template operator()<2 - K>() : (void) 0), ...); }(std::make_integer_sequence<long, 3>{}); };
	V x; with(start, [&]<long ix> { x.emplace<ix>(); }); src s{4}; src const &cs = s; auto p = std::make_unique<int>(7);
	with(k, [&]<long ix> { using W = taker<ix>; auto put = [&](auto &&...a) { if (inplace) x = V{std::in_place_type<W>, std::forward<decltype(a)>(a)...}; else { auto &r = x.emplace<ix>(std::forward<decltype(a)>(a)...); MC_CHECK(&r == &x.get<ix>(), "emplace returns another object"); } };
		auto first = [&](auto... rest) { if (cat == 0) put(s, std::move(rest)...); else if (cat == 1) put(cs, std::move(rest)...); else put(std::move(s), std::move(rest)...); };
		if (two) first(std::move(p)); else first();
		int want = two ? (cat == 0 ? 4 : cat == 1 ? 6 : 5) : cat + 1; MC_CHECK(x.index() == ix && x.get<ix>().v == (two ? 47 : 4) && x.get<ix>().cat == want, "the alternative was built from constructor %d, %d expected", x.get<ix>().cat, want); });
	MC_CHECK(s.used == (cat == 2), "the argument was %sused up", s.used ? "" : "not ");
	// the visitor arrives as it was passed as well
	vis v; vis const &cv = v;
	MC_CHECK(x.visit(v) == 1 && x.visit(cv) == 2 && x.visit(vis{}) == 3 && x.visit(std::move(cv)) == 4 && std::as_const(x).visit(vis{}) == 3 && std::move(x).visit(v) == 1, "visit calls the visitor as another kind of value");
}
// constant expressions
static_assert([] { dtl::integral_template_variant<3l, 0l, plain_h> v{plain_h<2>{5}}; bool a = v.index() == 2 && v.get<2>().v == 5 && v.holds_alternative<2>(); v.emplace<1>(9); return a && v.index() == 1 && v.visit([](auto const &x) { return x.v; }) == 9; }());
int main(int argc, char **argv) {
	std::vector<scenario> s; constexpr int D = 4 + DEPTH + THOROUGH;
#if PART == 0
	s.push_back(sc<int, 0, 3, PLAIN>("0..3", D, 0)); s.push_back(sc<int, 3, 0, TRACK>("3..0", D - 1, 0)); s.push_back(sc<int, -1, 2, TRACK>("-1..2", D - 1, 0)); s.push_back({"hash", hash_empty}); s.push_back({"forwarding", forwarding});
#elif PART == 1
	s.push_back(sc<int, 2, -1, THROWS>("2..-1", D - 1, 1 + THOROUGH)); s.push_back(sc<int, 5, 7, THROWMOVE>("5..7", D - 1, 1 + THOROUGH));
#elif PART == 2
	s.push_back(sc<size_t, 1, 3, MOVEONLY>("1..3,size_t", D - 1, 1 + THOROUGH)); s.push_back(sc<signed char, 127, 124, TRACK>("127..124,i8", D - 1, 0)); s.push_back(sc<signed char, -128, -126, THROWS>("-128..-126,i8", D - 1, 1));
#else
	s.push_back(sc<unsigned char, 253, 255, THROWMOVE>("253..255,u8", D - 1, 1)); s.push_back(sc<size_t, 2, 0, THROWS>("2..0,size_t", D - 1, 1 + THOROUGH)); s.push_back(sc<int, 8, 9, THROWMOVE>("8..9", D, 2)); s.push_back(sc<long, -5, -6, MOVEONLY>("-5..-6,long", D, 2));
#endif
	return run(argc, argv, split(s, 2));
}
