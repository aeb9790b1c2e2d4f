// variant2: every sequence of operations over three variants, in lock step with std::variant (C14) or with throwing
// element operations and a model of what may be left behind (C15, -DFAULTS=1).
#include "../../engine/mcseq.hpp"
#include <dice/template-library/variant2.hpp>
#include <any>
#include <memory>
#include <optional>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
#ifndef DEPTH
#define DEPTH 3
#endif
#ifndef FAULTS
#define FAULTS 0
#endif
static int thrown; // exceptions thrown by element operations
static void may_throw(char const *what) { if (FAULTS && fault(what)) { ++thrown; throw boom{}; } }
// tracked element: K distinguishes types, MT: its move operations may throw, CT: its copy operations may throw
template<int K, bool CT, bool MT, bool VT = CT, bool CA = CT, bool MA = MT> struct tr {
	int v; int *own;
	tr() : v(0), own(nullptr) { may_throw("default construction"); own = new int(0); L.add(this, K); }
	explicit tr(int x) noexcept(!VT) : v(x), own(nullptr) { if (VT) may_throw("value construction"); own = new int(x); L.add(this, K); }
	tr(tr const &o) noexcept(!CT) : v(o.v), own(nullptr) { L.use(&o, K); if (CT) may_throw("copy construction"); if (o.own) own = new int(*o.own); L.add(this, K); }
	tr(tr &&o) noexcept(!MT) : v(o.v), own(o.own) { L.use(&o, K); if (MT) may_throw("move construction"); o.v = -1; o.own = nullptr; L.add(this, K); }
	tr &operator=(tr const &o) noexcept(!CA) { L.use(this, K); L.use(&o, K); if (CA) may_throw("copy assignment"); if (this != &o) { int *n = o.own ? new int(*o.own) : nullptr; delete own; own = n; v = o.v; } return *this; }
	tr &operator=(tr &&o) noexcept(!MA) { L.use(this, K); L.use(&o, K); if (MA) may_throw("move assignment"); if (this != &o) { delete own; own = o.own; v = o.v; o.own = nullptr; o.v = -1; } return *this; }
	~tr() { L.del(this, K); delete own; }
	bool operator==(tr const &o) const { L.use(this, K); L.use(&o, K); return v == o.v; }
	auto operator<=>(tr const &o) const { L.use(this, K); L.use(&o, K); return v <=> o.v; }
};
template<int K> struct trivassign { // trivially assignable, but construction and destruction count
	int v;
	explicit trivassign(int x = 0) : v(x) { L.add(this, K); }
	trivassign(trivassign const &o) : v(o.v) { L.use(&o, K); L.add(this, K); }
	trivassign(trivassign &&o) noexcept : v(o.v) { L.use(&o, K); L.add(this, K); }
	trivassign &operator=(trivassign const &) = default;
	trivassign &operator=(trivassign &&) = default;
	~trivassign() { L.del(this, K); }
	bool operator==(trivassign const &o) const { return v == o.v; }
	auto operator<=>(trivassign const &o) const { return v <=> o.v; }
};
struct moveonly { std::unique_ptr<int> p; moveonly() = default; explicit moveonly(int x) : p(new int(x)) {} auto key() const { return p ? *p : -1; } bool operator==(moveonly const &o) const { return key() == o.key(); } auto operator<=>(moveonly const &o) const { return key() <=> o.key(); } };
struct agg { int a, b; auto operator<=>(agg const &) const = default; };
using anyvec = std::vector<std::any>;
using intvec = std::vector<int>;
template<typename T> T mk(int k);
template<> int mk<int>(int k) { return k; }
template<> char mk<char>(int k) { return (char) k; }
template<> double mk<double>(int k) { return k + 0.5; }
template<> agg mk<agg>(int k) { return {k, k + 1}; }
template<> std::string mk<std::string>(int k) { return std::string((size_t) (k * 9 + 1), (char) ('a' + k)); }
template<> moveonly mk<moveonly>(int k) { return moveonly(k); }
template<> intvec mk<intvec>(int k) { return intvec((size_t) k + 1, k); }
template<> anyvec mk<anyvec>(int k) { return anyvec((size_t) k % 2, std::any(1)); }
template<typename T> requires requires { T::own; } || std::is_same_v<T, trivassign<1>> || std::is_same_v<T, trivassign<2>> T mk(int k) { return T(k); }
static std::string rep(int x) { return "i" + std::to_string(x); }
static std::string rep(char x) { return "c" + std::to_string((int) x); }
static std::string rep(double x) { return "d" + std::to_string(x); }
static std::string rep(agg x) { return "g" + std::to_string(x.a) + "," + std::to_string(x.b); }
static std::string rep(std::string const &x) { return "s" + x; }
static std::string rep(moveonly const &x) { return "m" + std::to_string(x.key()); }
static std::string rep(intvec const &x) { std::string s = "v"; for (int i : x) s += std::to_string(i) + ","; return s; }
static std::string rep(anyvec const &x) { return "a" + std::to_string(x.size()); }
template<int K, bool... B> static std::string rep(tr<K, B...> const &x) { L.use(&x, K); MC_CHECK((x.own ? *x.own : -1) == x.v, "an object is torn"); return "t" + std::to_string(K) + ":" + std::to_string(x.v); }
template<int K> static std::string rep(trivassign<K> const &x) { L.use(&x, K); return "z" + std::to_string(K) + ":" + std::to_string(x.v); }
namespace std {
template<int K, bool... B> struct hash<::tr<K, B...>> { size_t operator()(::tr<K, B...> const &x) const { return (size_t) x.v * 31; } };
template<int K> struct hash<::trivassign<K>> { size_t operator()(::trivassign<K> const &x) const { return (size_t) x.v * 31; } };
}
template<typename T, typename U> struct H {
	using V = dtl::variant2<T, U>; using R = std::variant<T, U>;
	static constexpr bool copyable = std::is_copy_constructible_v<T> && std::is_copy_constructible_v<U>;
	static constexpr bool comparable = requires(R const &a) { a <=> a; };
	static_assert(std::is_same_v<dtl::variant<T, U>, V> && std::is_same_v<dtl::variant<T, U, float *>, std::variant<T, U, float *>> && std::variant_size_v<V> == 2 && std::is_same_v<std::variant_alternative_t<0, V>, T> && std::is_same_v<std::variant_alternative_t<1, V>, U>);
	static std::string show(R const &r) { return r.valueless_by_exception() ? "-" : std::visit([](auto const &x) { return rep(x); }, r); }
	static std::string show(V const &r) { return r.valueless_by_exception() ? "-" : dtl::visit([](auto const &x) { return rep(x); }, r); }
	template<typename F> static bool bad(F &&f) { try { f(); return false; } catch (std::bad_variant_access const &) { return true; } }
	// v against an expectation: index (npos: valueless) and value
	static void verify(size_t n, V &v, size_t ix, std::string const &s) {
		V const &c = v;
		MC_CHECK(c.index() == ix && c.valueless_by_exception() == (ix == std::variant_npos), "#%zu has index %zd, expected %zd", n, (ssize_t) c.index(), (ssize_t) ix);
		MC_CHECK(dtl::holds_alternative<T>(c) == (ix == 0) && dtl::holds_alternative<U>(c) == (ix == 1) && !dtl::holds_alternative<void *>(c), "#%zu: holds_alternative wrong", n);
		T *a = dtl::get_if<0>(&v); U *b = dtl::get_if<1>(&v);
		MC_CHECK((a != nullptr) == (ix == 0) && (b != nullptr) == (ix == 1) && dtl::get_if<0>(&c) == a && dtl::get_if<1>(&c) == b && dtl::get_if<T>(&v) == a && dtl::get_if<U>(&v) == b && dtl::get_if<T>(&c) == a && dtl::get_if<U>(&c) == b, "#%zu: get_if wrong", n);
		MC_CHECK(dtl::get_if<0>((V *) nullptr) == nullptr && dtl::get_if<U>((V const *) nullptr) == nullptr, "get_if of null");
		// access to what is not active fails with the standard error (exceptions are expensive: 200 probes per state of a variant)
		static std::unordered_map<std::string, int> probed; bool probe; { harness hh; probe = ++probed[std::to_string(n * 4 + ix % 4) + s] <= 200; }
		if (ix != 0 && probe) MC_CHECK(bad([&] { (void) dtl::get<0>(v); }) && bad([&] { (void) dtl::get<0>(c); }) && bad([&] { (void) dtl::get<T>(v); }) && bad([&] { (void) dtl::get<T>(std::move(c)); }) && bad([&] { (void) dtl::get<0>(std::move(v)); }), "#%zu: get of the inactive first alternative succeeds", n);
		if (ix != 1 && probe) MC_CHECK(bad([&] { (void) dtl::get<1>(v); }) && bad([&] { (void) dtl::get<1>(c); }) && bad([&] { (void) dtl::get<U>(v); }) && bad([&] { (void) dtl::get<U>(std::move(c)); }) && bad([&] { (void) dtl::get<1>(std::move(v)); }), "#%zu: get of the inactive second alternative succeeds", n);
		if (ix == std::variant_npos) { if (probe) MC_CHECK(bad([&] { dtl::visit([](auto &&) {}, v); }) && bad([&] { dtl::visit([](auto &&) {}, c); }), "#%zu: a valueless variant is visited", n); return; }
		auto addr = [&](auto &&f) { void const *p = f(); return p; };
		void const *e = a ? (void const *) a : (void const *) b;
		if (ix == 0) MC_CHECK(addr([&] { return &dtl::get<0>(v); }) == e && addr([&] { return &dtl::get<0>(c); }) == e && addr([&] { return &dtl::get<T>(v); }) == e && addr([&] { return &dtl::get<T>(c); }) == e && addr([&] { T &&x = dtl::get<0>(std::move(v)); return &x; }) == e && addr([&] { T const &&x = dtl::get<T>(std::move(c)); return &x; }) == e, "#%zu: get<0> gives another object", n);
		else MC_CHECK(addr([&] { return &dtl::get<1>(v); }) == e && addr([&] { return &dtl::get<1>(c); }) == e && addr([&] { return &dtl::get<U>(v); }) == e && addr([&] { return &dtl::get<U>(c); }) == e && addr([&] { U &&x = dtl::get<1>(std::move(v)); return &x; }) == e && addr([&] { U const &&x = dtl::get<U>(std::move(c)); return &x; }) == e, "#%zu: get<1> gives another object", n);
		int calls = 0; auto vis = [&]<typename X>(X &&x) -> void const * { ++calls; MC_CHECK((std::is_same_v<std::remove_cvref_t<X>, T>) == (ix == 0), "visit passes the wrong type"); return (void const *) &x; };
		MC_CHECK(dtl::visit(vis, v) == e && dtl::visit(vis, c) == e && dtl::visit(vis, std::move(v)) == e && dtl::visit(vis, std::move(c)) == e && calls == 4, "#%zu: visit gives another object", n);
		auto cat = []<typename X>(X &&) { return std::is_lvalue_reference_v<X> * 2 + std::is_const_v<std::remove_reference_t<X>>; };
		MC_CHECK(dtl::visit(cat, v) == 2 && dtl::visit(cat, c) == 3 && dtl::visit(cat, std::move(v)) == 0 && dtl::visit(cat, std::move(c)) == 1, "#%zu: visit passes the wrong value category", n);
		std::string have = show(v); MC_CHECK(have == s, "#%zu holds %s, expected %s", n, have.c_str(), s.c_str());
		if constexpr (std::formattable<T, char> && std::formattable<U, char>) MC_CHECK(std::format("{}", c) == (a ? std::format("variant({})", *a) : std::format("variant({})", *b)), "#%zu formats wrongly", n);
	}
	template<typename X> static size_t hash_of(X const &x) { if constexpr (requires { std::hash<T>{}(std::declval<T const &>()); std::hash<U>{}(std::declval<U const &>()); }) return std::hash<X>{}(x); else return 0; }
	static void pairs(std::optional<V> (&v)[3], std::optional<R> (&r)[3]) {
		for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) {
			V const &a = *v[i], &b = *v[j];
			if constexpr (comparable) {
				R const &x = *r[i], &y = *r[j];
				MC_CHECK((a == b) == (x == y) && (a != b) == (x != y), "#%zu and #%zu: equality wrong", i, j);
				static_assert(std::is_same_v<decltype(a <=> b), decltype(x <=> y)>);
				MC_CHECK((a <=> b) == (x <=> y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "#%zu and #%zu: order wrong", i, j);
				if (a == b) MC_CHECK(hash_of(a) == hash_of(b), "#%zu and #%zu are equal and hash differently", i, j);
			}
		}
	}
	// one operation on any variant type; k is the value
	template<typename X> static void set(std::optional<X> &v, int how, int k) { // 16 forms
		switch (how) {
			case 0: if constexpr (std::is_copy_constructible_v<T>) { T const t = mk<T>(k); v.reset(); v.emplace(t); } break;
			case 1: { T t = mk<T>(k); v.reset(); v.emplace(std::move(t)); break; }
			case 2: if constexpr (std::is_copy_constructible_v<U>) { U const t = mk<U>(k); v.reset(); v.emplace(t); } break;
			case 3: { U t = mk<U>(k); v.reset(); v.emplace(std::move(t)); break; }
			case 4: v.reset(); v.emplace(std::in_place_type<T>, mk<T>(k)); break;
			case 5: v.reset(); v.emplace(std::in_place_index<1>, mk<U>(k)); break;
			case 6: v.reset(); v.emplace(std::in_place_index<0>, mk<T>(k)); break;
			case 7: v.reset(); v.emplace(std::in_place_type<U>, mk<U>(k)); break;
			case 8: if constexpr (std::is_copy_constructible_v<T>) { T const t = mk<T>(k); *v = t; } break;
			case 9: *v = mk<T>(k); break;
			case 10: if constexpr (std::is_copy_constructible_v<U>) { U const t = mk<U>(k); *v = t; } break;
			case 11: *v = mk<U>(k); break;
			case 12: { auto &x = v->template emplace<T>(mk<T>(k)); E.faults_left = 0; MC_CHECK(rep(x) == rep(mk<T>(k)), "emplace returns another value"); break; }
			case 13: { auto &x = v->template emplace<1>(mk<U>(k)); E.faults_left = 0; MC_CHECK(rep(x) == rep(mk<U>(k)), "emplace returns another value"); break; }
			case 14: if constexpr (std::is_same_v<U, intvec>) v->template emplace<U>(3u, k); else if constexpr (std::is_same_v<T, agg>) v->template emplace<T>(k, 8); else v->template emplace<0>(); break;
			case 15: if constexpr (std::is_same_v<U, intvec>) { v.reset(); v.emplace(std::in_place_index<1>, 2u, k); } else v->template emplace<1>(); break;
		}
	}
	template<typename X> static void own(X &v) { if constexpr (copyable) { if (v.index() == 0) v = get_own<0>(v); else if (v.index() == 1) v = get_own<1>(v); } } // assignment of its own content
	template<size_t I, typename X> static auto const &get_own(X &v) { if constexpr (std::is_same_v<X, V>) return dtl::get<I>(v); else return std::get<I>(v); }
	template<typename X> static void write(X &v, int k) { // through mutable access
		if constexpr (std::is_same_v<X, V>) dtl::visit([&]<typename Y>(Y &x) { x = mk<Y>(k); }, v); else std::visit([&]<typename Y>(Y &x) { x = mk<Y>(k); }, v);
	}
	static void body(int depth) {
		L.reset();
		{
			sut in; std::optional<V> v[3]; std::optional<R> r[3];
			auto both = [&](size_t i, auto &&f) { f(v[i]); f(r[i]); };
			if constexpr (std::is_default_constructible_v<T>) { both(0, [](auto &x) { x.emplace(); }); } else both(0, [](auto &x) { set(x, 4, 0); });
			both(1, [](auto &x) { set(x, 4, 1); }); both(2, [](auto &x) { set(x, 5, 2); });
			auto check = [&] { u64 h = 4; for (size_t i = 0; i < 3; ++i) { std::string s = show(*r[i]); verify(i, *v[i], r[i]->index(), s); h = mix(h, hash_str(s)); } pairs(v, r); state(h); };
			check();
			for (int d = 0; d < depth; ++d) {
				size_t i = (size_t) choose(3), j = i; int o = choose(9); if (o >= 1 && o <= 5) j = (size_t) choose(3);
				switch (o) {
					case 0: { int how = choose(16), k = 3 + d; op("#%zu set, form %d, value %d", i, how, k); both(i, [&](auto &x) { set(x, how, k); }); break; }
					case 1: if (i == j || !copyable) { d = depth; break; } op("#%zu copy of #%zu", j, i); if constexpr (copyable) { v[j].reset(); r[j].reset(); v[j].emplace(*v[i]); r[j].emplace(*r[i]); } break;
					case 2: if (i == j) { d = depth; break; } op("#%zu moved from #%zu", j, i); v[j].reset(); r[j].reset(); v[j].emplace(std::move(*v[i])); r[j].emplace(std::move(*r[i])); break;
					case 3: if (!copyable) { d = depth; break; } op("#%zu = #%zu", j, i); if constexpr (copyable) { *v[j] = *v[i]; *r[j] = *r[i]; } break;
					case 4: if (i == j) { d = depth; break; } op("#%zu = move(#%zu)", j, i); *v[j] = std::move(*v[i]); *r[j] = std::move(*r[i]); break;
					case 5: if (j > i) { d = depth; break; } op("swap #%zu #%zu", i, j); { using std::swap; swap(*v[i], *v[j]); if (i != j) swap(*r[i], *r[j]); } break;
					case 6: op("#%zu = its own content", i); both(i, [&](auto &x) { own(*x); }); break;
					case 7: op("write through visit of #%zu", i); both(i, [&](auto &x) { write(*x, 6 + d); }); break;
					case 8: op("#%zu = temporary variant", i); both(i, [&](auto &x) { using X = typename std::remove_cvref_t<decltype(x)>::value_type; *x = X(std::in_place_index<1>, mk<U>(8 + d)); }); break;
				}
				if (d < depth) check();
			}
		}
		L.expect(0);
	}
	// C15: the model is index and value of each variant; an exception leaves the operands with their previous value or valueless
	static void faults(int depth) {
		L.reset(); int f0 = E.faults_left; E.faults_left = 0;
		{
			sut in; std::optional<V> v[3]; struct st { size_t ix; std::string s; } m[3];
			auto look = [&](size_t i) { m[i] = {v[i]->index(), show(*v[i])}; };
			set(v[0], 4, 0); set(v[1], 4, 1); set(v[2], 5, 2); for (size_t i = 0; i < 3; ++i) look(i);
			auto valueless = [&](st const &s) { return s.ix == std::variant_npos; };
			auto check = [&] { u64 h = 4; int ff = E.faults_left; E.faults_left = 0; for (size_t i = 0; i < 3; ++i) { verify(i, *v[i], m[i].ix, m[i].s); h = mix(h, hash_str(m[i].s)); }
				for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) if (valueless(m[i]) || valueless(m[j])) { V const &a = *v[i], &b = *v[j]; bool e = valueless(m[i]) && valueless(m[j]);
					MC_CHECK((a == b) == e && (a != b) == !e && (a < b) == (valueless(m[i]) && !e) && (a > b) == (valueless(m[j]) && !e) && ((a <=> b) == 0) == e, "#%zu and #%zu: a valueless variant compares wrongly", i, j);
					if (e) MC_CHECK(hash_of(a) == hash_of(b), "valueless variants hash differently"); }
				E.faults_left = ff; state(h); };
			for (int d = 0; d < depth; ++d) {
				size_t i = (size_t) choose(3), j = i; int o = choose(7); if (o >= 1 && o <= 5) j = (size_t) choose(3);
				st before[3] = {m[0], m[1], m[2]}; int t0 = thrown; bool boomed = false; size_t alive = 0; bool built = true; E.faults_left = f0;
				auto expect = [&](size_t k, st s) { m[k] = s; };
				auto value = [&](size_t ix, int k) { return st{ix, ix == 0 ? rep(mk<T>(k)) : rep(mk<U>(k))}; };
				(void) alive;
				try {
					switch (o) {
						case 0: { int how = 8 + choose(8), k = 3 + d; op("#%zu set, form %d, value %d", i, how, k); set(v[i], how, k); E.faults_left = 0; size_t ix = how == 8 || how == 9 || how == 12 || how == 14 ? 0 : 1; expect(i, value(ix, how >= 14 ? 0 : k)); break; }
						case 1: if (i == j) { d = depth; break; } op("#%zu = copy of #%zu", j, i); { std::optional<V> n; built = false; n.emplace(*v[i]); built = true; E.faults_left = 0; verify(9, *n, m[i].ix, m[i].s); } break;
						case 2: if (i == j) { d = depth; break; } op("move construction from #%zu", i); { std::optional<V> n; built = false; n.emplace(std::move(*v[i])); built = true; E.faults_left = 0; verify(9, *n, before[i].ix, before[i].s); look(i); MC_CHECK(m[i].ix == before[i].ix, "a moved-from variant changes its index"); } break;
						case 3: op("#%zu = #%zu", j, i); *v[j] = *v[i]; expect(j, m[i]); break;
						case 4: if (i == j) { d = depth; break; } op("#%zu = move(#%zu)", j, i); *v[j] = std::move(*v[i]); E.faults_left = 0; expect(j, m[i]); look(i); MC_CHECK(m[i].ix == before[i].ix, "a moved-from variant changes its index"); break;
						case 5: if (j > i) { d = depth; break; } op("swap #%zu #%zu", i, j); { using std::swap; swap(*v[i], *v[j]); std::swap(m[i], m[j]); } break;
						case 6: { int how = choose(8), k = 5 + d; op("construct in form %d", how); std::optional<V> n; built = false; set(n, how, k); built = true; E.faults_left = 0; size_t ix = how == 0 || how == 1 || how == 4 || how == 6 ? 0 : 1; st s = value(ix, k); verify(9, *n, s.ix, s.s); break; }
					}
				} catch (boom const &) { boomed = true; }
				E.faults_left = 0; (void) built;
				MC_CHECK(boomed == (thrown != t0), boomed ? "an exception out of nothing" : "an exception of an element operation is swallowed");
				if (boomed) {
					op("... failed");
					for (size_t k = 0; k < 3; ++k) {
						look(k); bool same = m[k].ix == before[k].ix && m[k].s == before[k].s;
						bool target = (o == 0 && k == i) || ((o == 3 || o == 4) && k == j) || (o == 5 && (k == i || k == j)), source = (o == 2 || o == 4) && k == i;
						// operands: previous value (possibly moved from within its alternative) or valueless; nobody else changes
						if (target || source) MC_CHECK(m[k].ix == before[k].ix || valueless(m[k]) || (o == 5 && (m[k].ix == before[i].ix || m[k].ix == before[j].ix)), "#%zu has index %zd after a failed operation, it was %zd", k, (ssize_t) m[k].ix, (ssize_t) before[k].ix);
						else MC_CHECK(same, "#%zu changed by a failed operation on another variant", k);
						if (source && !target) MC_CHECK(m[k].ix == before[k].ix, "the source of a failed move changes its index");
						if (target && o == 3) MC_CHECK(same || valueless(m[k]), "a failed copy assignment changes the value");
					}
				}
				if (d < depth) check();
				f0 -= boomed; // at most scenario::faults exceptions in all
				MC_CHECK(L.v.size() == (size_t) (tracked(m[0]) + tracked(m[1]) + tracked(m[2])), "%zu objects are alive, the variants hold %d", L.v.size(), tracked(m[0]) + tracked(m[1]) + tracked(m[2]));
			}
			E.faults_left = 0;
		}
		L.expect(0);
	}
	template<typename S> static int tracked(S const &s) { return s.ix != std::variant_npos && s.s[0] == 't'; }
};
int main(int argc, char **argv) {
	std::vector<scenario> v;
#if FAULTS
	int d = THOROUGH ? 4 : 3;
	using NN = tr<1, false, false>; using CC = tr<1, true, false>; using CM = tr<1, true, true>; using CM2 = tr<2, true, true>; using CC2 = tr<2, true, false>; using NN2 = tr<2, false, false>;
#define ONE(T, U) v.push_back({#T "," #U, [=] { H<T, U>::faults(d); }, THOROUGH ? 2 : 1})
	
#define TWO(T, U) v.push_back({#T "," #U, [=] { H<T, U>::faults(d - 1); }, THOROUGH ? 2 : 1})
#ifdef MASK // every combination of throwing copy construction, move construction, value construction, copy assignment and move assignment
	using X1 = tr<1, (MASK & 1) != 0, (MASK & 2) != 0, (MASK & 4) != 0, (MASK & 8) != 0, (MASK & 16) != 0>; using X2 = tr<2, (MASK & 1) != 0, (MASK & 2) != 0, (MASK & 4) != 0, (MASK & 8) != 0, (MASK & 16) != 0>;
	TWO(X1, NN2); TWO(NN, X2);
#else
	ONE(CM, CM2); TWO(CM, NN2); TWO(CC, CC2); TWO(NN, CM2); TWO(int, CM2); TWO(CM, int); ONE(CC, CM2);
#endif
#else
	int d = DEPTH + THOROUGH;
	using T1 = tr<1, true, false>; using T2 = tr<2, true, false>; using M1 = tr<1, true, true>; using Z1 = trivassign<1>; using Z2 = trivassign<2>; using str = std::string;
#define ONE(T, U) v.push_back({#T "," #U, [=] { H<T, U>::body(d); }})
#define TWO(T, U) v.push_back({#T "," #U, [=] { H<T, U>::body(d - 1); }})
	ONE(int, double); TWO(int, str); ONE(T1, T2); TWO(M1, char); ONE(Z1, int); TWO(int, Z2); TWO(Z1, Z2); TWO(Z1, T2); TWO(moveonly, T2); TWO(int, moveonly); TWO(agg, str); TWO(int, intvec); TWO(int, anyvec); TWO(anyvec, T2); TWO(char, M1);
#endif
	if (DEPTH + THOROUGH > 2) v = split(v);
	return run(argc, argv, v);
}
