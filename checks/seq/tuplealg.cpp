// tuple_algorithm and overloaded/match: every tuple shape up to a length, every throwing call, every alternative and handler set.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/tuple_algorithm.hpp>
#include <dice/template-library/overloaded.hpp>
#include <dice/template-library/variant2.hpp>
#include <dice/template-library/standard_layout_tuple.hpp>
#include <array>
#include <memory>
#include <variant>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef PART
#define PART 0
#endif
#ifndef THOROUGH
#define THOROUGH 0
#endif
struct el { int v; int *h; explicit el(int x) : v(x), h(new int(x)) { L.add(this, 1); } el(el const &o) : v(o.get()), h(new int(v)) { L.add(this, 1); } el(el &&o) : v(o.get()), h(new int(v)) { L.add(this, 1); o.set(-1); }
	el &operator=(el const &o) { set(o.get()); return *this; } el &operator=(el &&o) { int x = o.get(); o.set(-1); set(x); return *this; } ~el() { L.del(this, 1); delete h; }
	int get() const { L.use(this, 1); if (*h != v) fail("an element lost its value"); return v; } void set(int x) { L.use(this, 1); v = x; *h = x; } };
struct mo : el { using el::el; mo(mo &&) = default; mo &operator=(mo &&) = default; };
template<int k> struct E_; template<> struct E_<0> { using t = int; }; template<> struct E_<1> { using t = el; }; template<> struct E_<2> { using t = mo; }; template<> struct E_<3> { using t = int &; }; template<> struct E_<4> { using t = el const; };
template<int code, typename... T> struct decode : decode<code / 5, typename E_<code % 5>::t, T...> {};
template<typename... T> struct decode<1, T...> { using t = std::tuple<T...>; }; // the leading digit 1 ends the list
static int vals[8];
template<typename T> static int value(T const &x) { if constexpr (std::is_same_v<T, int>) return x; else return x.get(); }
template<typename T> static int tid() { using U = std::remove_cv_t<T>; return (std::is_same_v<U, int> ? 1 : std::is_same_v<U, el> ? 2 : std::is_same_v<U, mo> ? 3 : std::is_same_v<U, int &> ? 4 : 5) * 2 + std::is_const_v<T>; }
template<typename T> static T make(int pos) { if constexpr (std::is_reference_v<T>) return vals[pos] = 10 + pos, (T) vals[pos]; else return std::remove_cv_t<T>(10 + pos); }

// accumulator: the exact history of what was folded in
struct acc { std::vector<int> log; int id; bool moved = false; static inline int throw_at = -1, assigns = 0; explicit acc(int i) : id(i) { L.add(this, 9); } acc(acc const &o) : log(o.log), id(o.id) { o.ok(); L.add(this, 9); } acc(acc &&o) noexcept : log(std::move(o.log)), id(o.id) { o.ok(); o.moved = true; L.add(this, 9); } ~acc() { L.del(this, 9); }
	acc &operator=(acc &&o) { o.ok(); L.use(this, 9); if (assigns++ == throw_at) throw boom{}; log = std::move(o.log); id = o.id; moved = false; o.moved = true; return *this; } acc &operator=(acc const &) = delete;
	void ok() const { L.use(this, 9); if (moved) fail("an accumulator is used after it was moved from"); } };
struct macc : acc { using acc::acc; macc(macc &&) = default; macc &operator=(macc &&) = default; };

// the tuple under test: any type with get; elem<i> gives the i-th element as the harness sees it
template<typename Tup, size_t i> static auto &elem(Tup &t) { if constexpr (requires { t.template get<i>(); }) return t.template get<i>(); else { using std::get; return get<i>(t); } }
template<typename Tup> struct check {
	static constexpr size_t n = std::tuple_size_v<Tup>; template<size_t i> using et = std::tuple_element_t<i, Tup>;
	template<typename F> static void each(F f) { [&]<size_t... I>(std::index_sequence<I...>) { (f.template operator()<I>(), ...); }(std::make_index_sequence<n>{}); }
	static std::vector<int> snapshot(Tup &t) { std::vector<int> r; each([&]<size_t i> { r.push_back(value(elem<Tup, i>(t))); }); return r; }
	static std::vector<void const *> addrs(Tup &t) { std::vector<void const *> r; each([&]<size_t i> { r.push_back((void const *) &elem<Tup, i>(t)); }); return r; }
	static std::vector<int> types() { std::vector<int> r; each([&]<size_t i> { r.push_back(tid<et<i>>()); }); return r; }
	static Tup build() { return [&]<size_t... I>(std::index_sequence<I...>) { return Tup{make<et<I>>((int) I)...}; }(std::make_index_sequence<n>{}); }
	// a functor that records each call; the result type depends on the element
	struct rec { std::vector<void const *> *at; std::vector<int> *kind; int throw_at; bool moveonly = false; rec(std::vector<void const *> *a, std::vector<int> *k, int t) : at(a), kind(k), throw_at(t) {}
		template<typename X> decltype(auto) operator()(X &&x) const { harness h; static_assert(std::is_lvalue_reference_v<X>); (void) value(x); if ((int) at->size() == throw_at) throw boom{}; at->push_back((void const *) &x); using U = std::remove_reference_t<X>; kind->push_back(tid<U>());
			if constexpr (std::is_same_v<std::remove_const_t<U>, el>) return (X) x; else if constexpr (std::is_same_v<std::remove_const_t<U>, mo>) return mo(x.get() + 100); else return (int) x + 100; }
		template<typename X> decltype(auto) operator()() const { harness h; if ((int) kind->size() == throw_at) throw boom{}; kind->push_back(tid<X>()); if constexpr (std::is_same_v<std::remove_const_t<X>, el>) return (vals[7]); else if constexpr (std::is_same_v<X, mo>) return mo(77); else return 5L; } };
	template<bool isconst> static void for_each_one(int form) {
		Tup t = build(); auto want = addrs(t); auto before = snapshot(t); std::vector<int> wt; each([&]<size_t i> { using X = std::conditional_t<isconst && !std::is_reference_v<et<i>>, et<i> const, et<i>>; wt.push_back(tid<std::remove_reference_t<X>>()); });
		for (int throw_at = -1; throw_at < (int) n; ++throw_at) {
			std::vector<void const *> at; std::vector<int> kind; rec f{&at, &kind, throw_at}; bool ex = false;
			auto call = [&]() -> decltype(auto) { using Q = std::conditional_t<isconst, Tup const, Tup>; Q &q = t; if constexpr (isconst) { if (form == 0) return dtl::tuple_for_each(q, f); if (form == 1) return dtl::tuple_for_each(q, rec(f)); return dtl::tuple_for_each(std::move(q), std::as_const(f)); } else { if (form == 0) return dtl::tuple_for_each(q, f); if (form == 1) return dtl::tuple_for_each(std::move(q), rec(f)); return dtl::tuple_for_each(q, std::as_const(f)); } };
			try {
				if constexpr (n == 0) { static_assert(std::is_void_v<decltype(call())>); sut s; call(); }
				else { using X = std::conditional_t<isconst && !std::is_reference_v<et<n - 1>>, et<n - 1> const, et<n - 1>>; using LX = std::remove_reference_t<X> &;
					static_assert(std::is_same_v<decltype(call()), decltype(f(std::declval<LX>()))>, "the result type is the one of the last call");
					sut s; decltype(auto) r = call(); harness h; if constexpr (std::is_lvalue_reference_v<decltype(r)>) MC_CHECK((void const *) &r == want[n - 1], "for_each returns another object than the last call"); else MC_CHECK(value(r) == before[n - 1] + 100, "for_each returned %d", value(r)); }
			} catch (boom const &) { ex = true; }
			size_t calls = throw_at < 0 ? n : (size_t) throw_at;
			MC_CHECK(ex == (throw_at >= 0), "an exception of the function was lost or made up"); MC_CHECK(at.size() == calls, "function called %zu times instead of %zu", at.size(), calls);
			for (size_t i = 0; i < calls; ++i) MC_CHECK(at[i] == want[i] && kind[i] == wt[i], "call %zu got %s", i, at[i] == want[i] ? "another type" : "another element");
			MC_CHECK(snapshot(t) == before, "for_each changed an element");
		}
		if constexpr (!isconst) { dtl::tuple_for_each(t, []<typename X>(X &x) { if constexpr (std::is_same_v<X, int>) x += 1000; else if constexpr (!std::is_const_v<X>) x.set(x.get() + 1000); }); auto after = snapshot(t); each([&]<size_t i> { MC_CHECK(after[i] == before[i] + (std::is_const_v<et<i>> ? 0 : 1000), "a write through for_each is lost"); }); }
	}
	static void type_for_each_one(int form) {
		for (int throw_at = -1; throw_at < (int) n; ++throw_at) {
			std::vector<int> kind; rec f{nullptr, &kind, throw_at}; bool ex = false; auto call = [&]() -> decltype(auto) { if (form == 0) return dtl::tuple_type_for_each<Tup>(f); if (form == 1) return dtl::tuple_type_for_each<Tup>(rec(f)); return dtl::tuple_type_for_each<Tup>(std::as_const(f)); };
			try { if constexpr (n == 0) { static_assert(std::is_void_v<decltype(call())>); call(); } else { static_assert(std::is_same_v<decltype(call()), decltype(f.template operator()<et<n - 1>>())>); decltype(auto) r = call(); if constexpr (std::is_lvalue_reference_v<decltype(r)>) MC_CHECK(&r == &vals[7], "the last result"); else if constexpr (std::is_same_v<decltype(r), long>) MC_CHECK(r == 5, "the last result"); else MC_CHECK(r.get() == 77, "the last result"); } } catch (boom const &) { ex = true; }
			auto want = types(); if (throw_at >= 0) want.resize((size_t) throw_at); MC_CHECK(ex == (throw_at >= 0) && kind == want, "type_for_each visits %zu types, %zu expected, or in another order", kind.size(), want.size());
		}
	}
	// fold: form = initial value as lvalue / const lvalue / temporary; throw_at = which call of f throws, assign_at = which assignment of the accumulator throws
	template<typename A> static void fold_one(int form, bool types_only) {
		Tup t = build(); auto before = snapshot(t); auto addr = addrs(t);
		for (int throw_at = -1; throw_at < (int) n; ++throw_at) for (int assign_at = -1; assign_at < (throw_at < 0 ? (int) n : 0); ++assign_at) {
			A init(3); init.log = {42}; acc::throw_at = assign_at; acc::assigns = 0; bool ex = false; int calls = 0; std::vector<int> got; int gid = 0;
			auto f = [&](A a, auto const &x) -> A { harness h; a.ok(); MC_CHECK((size_t) calls < n && (void const *) &x == addr[(size_t) calls], "fold passes another element at step %d", calls); if (calls == throw_at) { throw boom{}; } a.log.push_back(value(x)); ++calls; A r(7 + calls); r.log = a.log; return r; };
			auto g = [&]<typename X>(A a) -> A { harness h; a.ok(); if (calls == throw_at) { throw boom{}; } a.log.push_back(tid<X>()); ++calls; a.id = 7 + calls; return a; };
			auto call = [&](auto &&i) { if (types_only) { static_assert(std::is_same_v<decltype(dtl::tuple_type_fold<Tup>(std::forward<decltype(i)>(i), g)), A>, "the accumulator is returned by value"); return dtl::tuple_type_fold<Tup>(std::forward<decltype(i)>(i), g); } static_assert(std::is_same_v<decltype(dtl::tuple_fold(t, std::forward<decltype(i)>(i), f)), A>, "the accumulator is returned by value"); return dtl::tuple_fold(t, std::forward<decltype(i)>(i), f); };
			auto keep = [&](A r) { r.ok(); got = r.log; gid = r.id; };
			try { sut s; if constexpr (std::is_copy_constructible_v<A>) { if (form == 0) keep(call(init)); else if (form == 1) keep(call(std::as_const(init))); else keep(call(std::move(init))); } else keep(call(std::move(init))); } catch (boom const &) { ex = true; }
			std::vector<int> want{42}; if (types_only) { auto k = types(); want.insert(want.end(), k.begin(), k.end()); } else want.insert(want.end(), before.begin(), before.end());
			MC_CHECK(ex == (throw_at >= 0 || assign_at >= 0), "fold: an exception was lost or made up"); MC_CHECK(calls == (throw_at >= 0 ? throw_at : assign_at >= 0 ? assign_at + 1 : (int) n), "fold called the function %d times", calls);
			if (!ex) MC_CHECK(got == want && gid == (n ? 7 + (int) n : 3), "fold gives another result: %zu entries", got.size());
			if (form < 2 && std::is_copy_constructible_v<A>) MC_CHECK(!init.moved && init.log == std::vector<int>{42} && init.id == 3, "fold changed the initial value it was given as an lvalue");
			MC_CHECK(snapshot(t) == before, "fold changed an element");
		}
	}
	static void all() {
		L.reset(); int what = choose(6), form = choose(3); op("operation %d, form %d", what, form); state((u64) (what * 3 + form));
		switch (what) { case 0: for_each_one<false>(form); break; case 1: for_each_one<true>(form); break; case 2: type_for_each_one(form); break; case 3: fold_one<acc>(form, false); break; case 4: fold_one<acc>(form, true); break; case 5: fold_one<macc>(2, form == 1); break; }
		L.expect(0);
	}
};
template<typename T> static scenario sc(std::string name) { return {name, [] { check<T>::all(); }}; }
template<typename... T> struct member_tuple { std::tuple<T...> t; template<typename... U> member_tuple(U &&...u) : t(std::forward<U>(u)...) {} template<size_t i> auto &get() & { return std::get<i>(t); } template<size_t i> auto const &get() const & { return std::get<i>(t); } };
template<typename... T> struct std::tuple_size<member_tuple<T...>> : std::integral_constant<size_t, sizeof...(T)> {};
template<size_t i, typename... T> struct std::tuple_element<i, member_tuple<T...>> { using type = std::tuple_element_t<i, std::tuple<T...>>; };

// ---- overloaded / match ----
struct A { int v; mutable int touched = 0; bool operator==(A const &o) const { return v == o.v; } }; struct B : A {};
static int last_handler, last_calls; static void const *last_arg; static int sink;
template<int id> static int &hit(void const *p, int throwing) { last_handler = id; ++last_calls; last_arg = p; if (throwing) throw boom{}; return sink; }
struct h_int { int thr; int &operator()(int const &x) const { return hit<0>(&x, thr); } }; struct h_a { int thr; int &operator()(A const &x) const { return hit<1>(&x, thr); } }; struct h_b { int thr; int &operator()(B const &x) const { return hit<2>(&x, thr); } }; struct h_any { int thr; template<typename X> int &operator()(X const &x) const { return hit<3>(&x, thr); } };
template<typename V, typename... H> static void match_one(int alt, int cat, int hcat, int thr) {
	constexpr int ids[] = {(std::is_same_v<H, h_int> ? 0 : std::is_same_v<H, h_a> ? 1 : std::is_same_v<H, h_b> ? 2 : 3)...}; auto has = [&](int k) { for (int i : ids) if (i == k) return true; return false; };
	V v = alt == 0 ? V{5} : alt == 1 ? V{A{6}} : V{B{{7}}}; void const *arg = visit([](auto const &x) -> void const * { return &x; }, v);
	int want = alt == 0 ? (has(0) ? 0 : 3) : alt == 1 ? (has(1) ? 1 : 3) : (has(2) ? 2 : has(3) ? 3 : 1); // a generic handler matches B better than the one for its base
	last_calls = 0; bool ex = false; int *res = nullptr;
	std::tuple<H...> hs{H{thr}...};
	try { std::apply([&](auto &...h) {
		auto go = [&](auto &&var) { using X = decltype(var); static_assert(std::is_same_v<decltype(dtl::match((X) var, h...)), int &>, "match keeps the reference result");
			sut s; if (hcat == 0) res = &dtl::match((X) var, h...); else if (hcat == 1) res = &dtl::match((X) var, std::move(h)...); else res = &dtl::match((X) var, std::as_const(h)...); };
		if (cat == 0) go(v); else if (cat == 1) go(std::as_const(v)); else go(std::move(v)); }, hs); } catch (boom const &) { ex = true; }
	MC_CHECK(last_calls == 1 && last_handler == want, "match called %d handlers, the last one %d; handler %d expected", last_calls, last_handler, want); MC_CHECK(last_arg == arg, "match hands out another object"); MC_CHECK(ex == (thr != 0) && (ex || res == &sink), "match: result or exception");
	if (cat < 1) { // direct call of the overload set
		last_calls = 0; dtl::overloaded o{H{}...}; int x = 3; A a{1}; B b{{2}}; int &r = alt == 0 ? o(x) : alt == 1 ? o(a) : o(b); MC_CHECK(&r == &sink && last_calls == 1 && last_handler == want && last_arg == (alt == 0 ? (void const *) &x : alt == 1 ? (void const *) &a : (void const *) &b), "the overload set calls handler %d, %d expected", last_handler, want); }
}
template<typename V> static void match_all() {
	int alt = choose(3), cat = choose(3), hcat = choose(3), thr = choose(2), set = choose(12); op("alternative %d, variant %d, handlers %d, throwing %d, handler set %d", alt, cat, hcat, thr, set); state((u64) (alt * 1000 + cat * 100 + hcat * 40 + thr * 20 + set));
	switch (set) {
	case 0: return match_one<V, h_any>(alt, cat, hcat, thr); case 1: return match_one<V, h_int, h_a>(alt, cat, hcat, thr); case 2: return match_one<V, h_a, h_int>(alt, cat, hcat, thr); case 3: return match_one<V, h_int, h_any>(alt, cat, hcat, thr); case 4: return match_one<V, h_any, h_int>(alt, cat, hcat, thr); case 5: return match_one<V, h_a, h_any>(alt, cat, hcat, thr);
	case 6: return match_one<V, h_any, h_b>(alt, cat, hcat, thr); case 7: return match_one<V, h_int, h_a, h_b>(alt, cat, hcat, thr); case 8: return match_one<V, h_b, h_a, h_int>(alt, cat, hcat, thr); case 9: return match_one<V, h_a, h_b, h_any>(alt, cat, hcat, thr); case 10: return match_one<V, h_any, h_b, h_a, h_int>(alt, cat, hcat, thr); default: return match_one<V, h_int, h_a, h_b, h_any>(alt, cat, hcat, thr);
	}
}
// the visited value keeps constness and value category; handlers may keep state, be move-only, return void or move-only values
template<typename V, bool two> static void match_values() {
	int alt = choose(2), cat = choose(4); op("alternative %d, category %d", alt, cat); state((u64) (alt * 4 + cat)); L.reset(); {
		V v = alt == 0 ? V{el{4}} : V{9}; int seen = -1, calls = 0; auto owner = std::make_unique<int>(31);
		auto probe = [&, o = std::move(owner)]<typename X>(X &&x) -> std::unique_ptr<int> { ++calls; MC_CHECK(*o == 31, "a move-only handler lost its state"); seen = (std::is_const_v<std::remove_reference_t<X>> ? 1 : 0) + (std::is_rvalue_reference_v<X &&> ? 2 : 0); MC_CHECK((std::is_same_v<std::remove_cvref_t<X>, el> ? 0 : 1) == alt, "another alternative"); return std::make_unique<int>(value(x)); };
		std::unique_ptr<int> r = cat == 0 ? dtl::match(v, std::move(probe)) : cat == 1 ? dtl::match(std::as_const(v), std::move(probe)) : cat == 2 ? dtl::match(std::move(v), std::move(probe)) : dtl::match(std::move(std::as_const(v)), std::move(probe));
		MC_CHECK(calls == 1 && *r == (alt == 0 ? 4 : 9) && seen == cat, "match passes category %d instead of %d", seen, cat);
		int a = 0, b = 0; dtl::match(v, [&](el &x) { ++a; x.set(50); }, [&](int &x) { ++b; x = 51; }); MC_CHECK(a == (alt == 0) && b == (alt == 1), "void handlers"); int got = dtl::match(v, [](el const &x) { return x.get(); }, [](int x) { return x; }); MC_CHECK(got == 50 + alt, "a write through match is lost: %d", got);
		int na = 0; struct counter { int *n; int own = 0; void operator()(el const &) { ++own; *n = own; } void operator()(int) { ++own; *n = own; } } c{&na}; dtl::match(v, c); MC_CHECK(na == 1, "a mutable handler was not called once");
		auto moved = dtl::match(std::move(v), [](el &&x) { return el(std::move(x)); }, [](int &&x) { return el(x); }); MC_CHECK(moved.get() == 50 + alt, "moving out through match");
		if (alt == 0) MC_CHECK(dtl::match(v, [](el const &x) { return x.get(); }, [](int) { return 0; }) == -1, "match moved a copy"); }
	L.expect(0);
}
struct bad { bad() = default; bad(bad const &) { throw boom{}; } bad(bad &&) { throw boom{}; } };
static void valueless() { std::variant<int, bad> v{3}; try { v.emplace<bad>(bad{}); } catch (boom const &) {} catch (...) {} op("valueless"); state(1ull); bool ex = false, called = false; if (v.valueless_by_exception()) { try { dtl::match(v, [&](int) { called = true; }, [&](bad const &) { called = true; }); } catch (std::bad_variant_access const &) { ex = true; } MC_CHECK(ex && !called, "match of a valueless variant"); } }

// constant expressions
static_assert(dtl::tuple_fold(std::tuple{1, 2, 3}, 0, [](int a, int x) { return a * 10 + x; }) == 123);
static_assert(dtl::tuple_type_fold<std::tuple<char, int, long>>(size_t{0}, []<typename T>(size_t a) { return a * 10 + sizeof(T); }) == 148);
static_assert([] { int s = 0; std::tuple<int, char, long> t{1, (char) 2, 3}; int const last = (int) dtl::tuple_for_each(t, [&](auto &x) { s = s * 10 + (int) x; x = 7; return x; }); return s == 123 && last == 7 && std::get<1>(t) == 7; }());
static_assert(dtl::tuple_type_for_each<std::tuple<char, int>>([]<typename T>() { return sizeof(T); }) == 4);
static_assert(dtl::overloaded{[](int) { return 1; }, [](long) { return 2; }, [](auto) { return 3; }}(2L) == 2);
template<int from, int to> static void add(std::vector<scenario> &s) { [&]<int... I>(std::integer_sequence<int, I...>) { (s.push_back(sc<typename decode<from + I>::t>("tuple" + std::to_string(from + I))), ...); }(std::make_integer_sequence<int, to - from>{}); }
int main(int argc, char **argv) {
	std::vector<scenario> s;
#if PART == 0 // all tuples of <= 2 elements, other tuple-like types, match
	add<1, 2>(s); add<5, 10>(s); add<25, 50>(s);
	s.push_back(sc<std::pair<int, el>>("pair<int,el>")); s.push_back(sc<std::pair<mo, int &>>("pair<mo,int&>")); s.push_back(sc<std::array<int, 3>>("array<int,3>")); s.push_back(sc<std::array<int, 0>>("array<int,0>")); s.push_back(sc<member_tuple<int, el, mo>>("member_tuple<int,el,mo>")); s.push_back(sc<member_tuple<mo, int>>("member_tuple<mo,int>")); s.push_back(sc<member_tuple<>>("member_tuple<>")); s.push_back(sc<dtl::standard_layout_tuple<int, el, int>>("standard_layout_tuple<int,el,int>"));
	s.push_back({"match,std", match_all<std::variant<int, A, B>>}); s.push_back({"match values,std", match_values<std::variant<el, int>, false>}); s.push_back({"match values,variant2", match_values<dtl::variant2<el, int>, true>}); s.push_back({"valueless", valueless});
#elif PART <= 5 // all tuples of 3 elements (125), a fifth per part
	add<125 + (PART - 1) * 25, 125 + PART * 25>(s);
#else // thorough: tuples of 4 elements (625)
	add<625 + (PART - 10) * 40, (625 + (PART - 9) * 40 < 1250 ? 625 + (PART - 9) * 40 : 1250)>(s);
#endif
	return run(argc, argv, s);
}
