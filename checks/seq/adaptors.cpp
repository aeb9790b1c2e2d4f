// bind_front, DICE_MEMFN, DICE_DBG: every combination of bound and call arguments, value categories, wrappers and results.
#include <dice/template-library/functional.hpp>
#include <dice/template-library/memfn.hpp>
#include <dice/template-library/dbg.hpp>
#include "../../engine/mcseq.hpp"
#include <memory>
#include <optional>
#include <ranges>
#include <sstream>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
#ifndef PART
#define PART 0
#endif
// a tracked value that counts its copies and moves
struct val { static inline int copies, moves; int v; int *h; explicit val(int x) : v(x), h(new int(x)) { harness q; L.add(this, 1); } val(val const &o) : v(o.get()), h(new int(o.v)) { ++copies; L.add(this, 1); } val(val &&o) : v(o.get()), h(new int(o.v)) { ++moves; o.v = -1; *o.h = -1; L.add(this, 1); } val &operator=(val const &) = delete; ~val() { L.del(this, 1); delete h; } int get() const { L.use(this, 1); if (*h != v) fail("an argument lost its value"); return v; } };
struct mov : val { using val::val; mov(mov &&) = default; };
struct pinned { int v; explicit pinned(int x) : v(x) {} pinned(pinned &&) = delete; };
// what the target saw
struct seen { void const *p; int cat; int v; bool operator==(seen const &) const = default; }; // cat: 0 &, 1 const &, 2 &&, 3 const &&
static std::vector<seen> log_; static int calls, throwing; static val *g_val;
template<typename A> constexpr int cat_of() { return (std::is_const_v<std::remove_reference_t<A>> ? 1 : 0) + (std::is_lvalue_reference_v<A> ? 0 : 2); }
template<typename A> static int value_of(A const &a) { if constexpr (requires { a.get(); }) return a.get(); else if constexpr (requires { a.v; }) return a.v; else return (int) a; }
template<int res> struct target { template<typename... A> decltype(auto) operator()(A &&...a) const { { harness h; ++calls; (log_.push_back({(void const *) &a, cat_of<A &&>(), value_of(a)}), ...); if (throwing) throw boom{}; }
	if constexpr (res == 0) return; else if constexpr (res == 1) return 17; else if constexpr (res == 2) return (*g_val); else if constexpr (res == 3) return (std::as_const(*g_val)); else if constexpr (res == 4) return std::move(*g_val); else if constexpr (res == 5) return std::make_unique<int>(18); else return pinned(19); } };
template<typename R> static void check_result(int res, auto call) { // call returns exactly what the target returns
	if constexpr (std::is_void_v<R>) { static_assert(std::is_void_v<decltype(call())>); call(); } else { static_assert(std::is_same_v<decltype(call()), R>, "the wrapper returns another type than the target"); decltype(auto) r = call(); if constexpr (std::is_reference_v<R>) MC_CHECK((void const *) &r == (void const *) g_val, "a reference result is another object"); else if constexpr (std::is_same_v<R, int>) MC_CHECK(r == 17, "result %d", r); else if constexpr (std::is_same_v<R, pinned>) MC_CHECK(r.v == 19, "result"); else MC_CHECK(*r == 18, "result"); } }
// call arguments by category; value objects live in a pool so that identity can be checked
static std::optional<val> pool[4], src[4];
template<int c> static decltype(auto) as(val &x) { if constexpr (c == 0) return (x); else if constexpr (c == 1) return (std::as_const(x)); else if constexpr (c == 2) return std::move(x); else return std::move(std::as_const(x)); }
template<int w, typename B> static decltype(auto) wrap_as(B &b) { if constexpr (w == 0) return (b); else if constexpr (w == 1) return (std::as_const(b)); else if constexpr (w == 2) return std::move(b); else return std::move(std::as_const(b)); }
template<int... c> struct cats { static constexpr int n = sizeof...(c); };
template<int code, int... c> struct dec : dec<code / 4, code % 4, c...> {}; template<int... c> struct dec<1, c...> { using t = cats<c...>; }; // leading 1 ends
template<int res, int w, int... bc, int... rc> static void one(cats<bc...>, cats<rc...>) {
	constexpr int nb = sizeof...(bc), nr = sizeof...(rc); static constexpr int bcat[nb + 1] = {bc...}, rcat[nr + 1] = {rc...};
	for (throwing = 0; throwing < 2; ++throwing) {
		for (int i = 0; i < 4; ++i) { pool[i].emplace(20 + i); src[i].emplace(10 + i); } val gv(99); g_val = &gv; log_.clear(); calls = 0; val::copies = val::moves = 0;
		[&]<size_t... B, size_t... R>(std::index_sequence<B...>, std::index_sequence<R...>) {
			auto b = dtl::bind_front<target<res>{}>(as<bc>(*src[B])...);
			int moved = 0, copied = 0; for (int i = 0; i < nb; ++i) (bcat[i] == 2 ? moved : copied)++; MC_CHECK(val::copies == copied && val::moves == moved, "binding made %d copies and %d moves, expected %d and %d", val::copies, val::moves, copied, moved);
			for (int i = 0; i < nb; ++i) MC_CHECK(src[i]->get() == (bcat[i] == 2 ? -1 : 10 + i), "binding changed argument %d", i);
			for (int i = 0; i < 4; ++i) src[i].reset(); // bound values are owned by the wrapper
			using ret = decltype(target<res>{}(as<rc>(*pool[R])...)); int rounds = w == 2 ? 1 : 2; std::vector<seen> first; bool ex = false;
			for (int k = 0; k < rounds; ++k) { log_.clear(); calls = 0; val::copies = val::moves = 0; ex = false;
				try { sut s; check_result<ret>(res, [&]() -> decltype(auto) { return wrap_as<w>(b)(as<rc>(*pool[R])...); }); } catch (boom const &) { ex = true; }
				MC_CHECK(ex == (throwing == 1) && calls == 1, "target called %d times, exception %d", calls, ex); MC_CHECK(val::copies + val::moves == 0, "the call copies or moves arguments"); MC_CHECK((int) log_.size() == nb + nr, "%zu arguments arrive instead of %d", log_.size(), nb + nr);
				for (int i = 0; i < nb; ++i) MC_CHECK(log_[(size_t) i].v == 10 + i && log_[(size_t) i].cat == w, "bound argument %d arrives with value %d and category %d (wrapper category %d)", i, log_[(size_t) i].v, log_[(size_t) i].cat, w);
				for (int i = 0; i < nr; ++i) { seen want{&*pool[i], rcat[i], 20 + i}; MC_CHECK(log_[(size_t) (nb + i)] == want, "call argument %d arrives with value %d and category %d instead of %d", i, log_[(size_t) (nb + i)].v, log_[(size_t) (nb + i)].cat, rcat[i]); }
				if (k) MC_CHECK(log_ == first, "the second call sees other objects"); first = log_; }
			auto c = b; log_.clear(); if (!throwing) { (void) 0; if constexpr (res == 0) c(as<rc>(*pool[R])...); else (void) c(as<rc>(*pool[R])...); for (int i = 0; i < nb; ++i) MC_CHECK(log_[(size_t) i].v == 10 + i && log_[(size_t) i].p != first[(size_t) i].p, "a copy of the wrapper shares its arguments"); }
		}(std::make_index_sequence<nb>{}, std::make_index_sequence<nr>{});
		for (int i = 0; i < 4; ++i) { pool[i].reset(); src[i].reset(); } g_val = nullptr;
	}
	throwing = 0; L.expect(0);
}
static int decode_code(int i) { return i == 0 ? 1 : i < 5 ? 4 + i - 1 : i < 21 ? 16 + i - 5 : 64 + i - 21; } // i-th list of categories: lengths 0, 1, 2, 3
template<int i> using list = typename dec<(i == 0 ? 1 : i < 5 ? 4 + i - 1 : i < 21 ? 16 + i - 5 : 64 + i - 21)>::t;
template<int res, int w, int b> static void rests(int r) { [&]<int... R>(std::integer_sequence<int, R...>) { ((r == R ? one<res, w>(list<b>{}, list<R>{}) : void()), ...); }(std::make_integer_sequence<int, 21>{}); }
template<int res> static void bind(int w, int b, int r) { [&]<int... B>(std::integer_sequence<int, B...>) { ((b == B ? (w == 0 ? rests<res, 0, B>(r) : w == 1 ? rests<res, 1, B>(r) : w == 2 ? rests<res, 2, B>(r) : rests<res, 3, B>(r)) : void()), ...); }(std::make_integer_sequence<int, 21>{}); }
template<int res> static void binding() { L.reset(); int w = choose(4), b = choose(21), r = choose(21); op("result %d, wrapper category %d, bound arguments %d, call arguments %d", res, w, decode_code(b), decode_code(r)); state((u64) (w * 441 + b * 21 + r)); bind<res>(w, b, r); }
// special arguments: move-only, references, arrays, functions, member pointers
struct C_ { int x = 4; int add(int a, int b) { return x + a * 10 + b * 100; } int cadd(int a) const { return x - a; } int rv(int a) && { return x * a; } int noe(int) const noexcept { return 1; } };
static int free_fn(int a, int b) { return a - b; } static int noe_fn(int a) noexcept { return a; } static void by_ref(int &a, int b) { a += b; }
static int fn_dummy(int); 
static void special() { int k = choose(12); op("special %d", k); state((u64) k); L.reset(); log_.clear();
	switch (k) {
	case 0: { auto b = dtl::bind_front<target<1>{}>(mov(5), mov(6)); b(mov(7)); MC_CHECK(log_.size() == 3 && log_[0].v == 5 && log_[0].cat == 0 && log_[1].v == 6 && log_[2].cat == 2, "move-only arguments"); auto c = std::move(b); log_.clear(); std::move(c)(); MC_CHECK(log_[0].v == 5 && log_[0].cat == 2, "move-only arguments of a moved wrapper"); auto take = dtl::bind_front<[](mov a, mov b) { return a.get() * 10 + b.get(); }>(mov(1)); MC_CHECK(std::move(take)(mov(2)) == 12, "consuming a bound argument"); break; }
	case 1: { int x = 1; auto b = dtl::bind_front<by_ref>(std::ref(x)); b(4); b(5); MC_CHECK(x == 10, "a reference_wrapper is not passed through"); auto c = dtl::bind_front<by_ref>(x); c(7); MC_CHECK(x == 10, "a bound value aliases the original"); break; }
	case 2: { char text[4] = "abc"; auto b = dtl::bind_front<[](char const *p, int i) { return p[i]; }>(text); MC_CHECK(b(1) == 'b', "array argument"); text[1] = 'x'; MC_CHECK(b(1) == 'x', "arrays decay to pointers"); auto f = dtl::bind_front<[](int (*g)(int, int), int a) { return g(a, 1); }>(free_fn); MC_CHECK(f(8) == 7, "function argument"); break; }
	case 3: { C_ c; auto b = dtl::bind_front<&C_::add>(&c); MC_CHECK(b(2, 3) == 324, "member function with a pointer"); auto d = dtl::bind_front<&C_::add>(c, 2); MC_CHECK(d(3) == 324, "member function with a copy"); c.x = 5; MC_CHECK(b(2, 3) == 325 && d(3) == 324, "copy and pointer"); auto e = dtl::bind_front<&C_::cadd>(std::cref(c)); MC_CHECK(e(1) == 4, "const member function"); auto r = dtl::bind_front<&C_::rv>(c); MC_CHECK(std::move(r)(3) == 15, "rvalue member function"); break; }
	case 4: { C_ c; auto b = dtl::bind_front<&C_::x>(c); static_assert(std::is_same_v<decltype(b()), int &> && std::is_same_v<decltype(std::as_const(b)()), int const &> && std::is_same_v<decltype(std::move(b)()), int &&>); b() = 9; MC_CHECK(b() == 9 && c.x == 4 && &b() == &b(), "data member"); break; }
	case 5: { auto b = dtl::bind_front<noe_fn>(3); static_assert(noexcept(b())); auto c = dtl::bind_front<free_fn>(3); static_assert(!noexcept(c(1))); C_ o; auto d = dtl::bind_front<&C_::noe>(&o); static_assert(noexcept(d(1))); MC_CHECK(b() == 3 && c(1) == 2 && d(2) == 1, "noexcept wrappers"); break; }
	case 6: { struct f { int operator()(val &) const noexcept { return 0; } int operator()(val const &) const { throw boom{}; } int operator()(val &&) const noexcept { return 2; } int operator()(val const &&) const { throw boom{}; } }; { auto b = dtl::bind_front<f{}>(val(1)); static_assert(noexcept(b()) && !noexcept(std::as_const(b)()) && noexcept(std::move(b)()) && !noexcept(std::move(std::as_const(b))())); MC_CHECK(b() == 0 && std::move(b)() == 2, "overload"); for (int i = 0; i < 2; ++i) { bool ex = false; try { if (i) std::as_const(b)(); else std::move(std::as_const(b))(); } catch (boom const &) { ex = true; } MC_CHECK(ex, "an exception is lost"); } } L.expect(0); break; }
	case 7: { struct f { int operator()(int) const { throw boom{}; } int operator()(int) noexcept { return 1; } }; auto b = dtl::bind_front<f{}>(1); auto c = dtl::bind_front<f{}>(); bool ex = false; try { b(); } catch (boom const &) { ex = true; } MC_CHECK(ex, "no exception"); ex = false; try { c(1); } catch (boom const &) { ex = true; } MC_CHECK(ex, "no exception"); break; }
	case 8: { static_assert(dtl::bind_front<[](int a, int b, int c) { return a * 100 + b * 10 + c; }>(1, 2)(3) == 123); constexpr auto b = dtl::bind_front<[](int a, int b) { return a - b; }>(9); static_assert(b(4) == 5); static_assert(dtl::bind_front<&C_::x>(C_{6})() == 6); break; }
	case 9: { auto inner = dtl::bind_front<free_fn>(10); auto outer = dtl::bind_front<[](auto &f, int x) { return f(x) * 2; }>(inner); MC_CHECK(outer(4) == 12, "nested wrappers"); std::vector<int> v{1, 2, 3}; int s = 0; for (int x : v | std::views::transform(dtl::bind_front<[](int a, int b) { return a * b; }>(3))) s += x; MC_CHECK(s == 18, "as a transformation"); struct both : decltype(inner) { } bb{inner}; MC_CHECK(bb(1) == 9, "a type derived from the wrapper"); break; }
	case 10: { struct cnt { int n = 0; }; auto b = dtl::bind_front<[](cnt &c) { return ++c.n; }>(cnt{}); MC_CHECK(b() == 1 && b() == 2 && b() == 3, "state in a bound argument"); auto c = b; MC_CHECK(c() == 4 && b() == 4, "state is copied with the wrapper"); break; }
	case 11: { auto b = dtl::bind_front<target<0>{}>(); b(); MC_CHECK(log_.empty() && calls >= 1, "no arguments at all"); { int x = 3; auto c = dtl::bind_front<[](int &r) -> int & { return r; }>(); MC_CHECK(&c(x) == &x, "reference identity"); } break; } } }

// ---- DICE_MEMFN ----
template<bool constobj> struct owner {
	int id = 7; template<int res, typename... A> decltype(auto) rec(A &&...a) const { return target<res>{}(*this, std::forward<A>(a)...); }
	operator int() const { return id; } 
	int over(int) { return 1; } int over(int) const { return 2; } int sum(int a, int b = 0, int c = 0) const { return a * 100 + b * 10 + c; } int mut() { return ++id; } int noargs() const { return 55; } bool less(int x) const { return x < id; }
	template<int res, int rc0, int rc1> static void none() {}
	// rest arguments in all categories, bound arguments 0..2 as lvalue / const lvalue / moved
	template<int res, int nb, int... rc> void run(cats<rc...>) const {
		static constexpr int rcat[sizeof...(rc) + 1] = {rc...};
		for (throwing = 0; throwing < 2; ++throwing) { for (int i = 0; i < 4; ++i) pool[i].emplace(20 + i); val gv(99), b0(10), b1(11); g_val = &gv; log_.clear(); calls = 0; val::copies = val::moves = 0;
			[&]<size_t... R>(std::index_sequence<R...>) {
				using ret = decltype(target<res>{}(*this, as<rc>(*pool[R])...)); auto go = [&](auto const &f) { for (int k = 0; k < 2; ++k) { log_.clear(); calls = 0; bool ex = false; try { sut s; check_result<ret>(res, [&]() -> decltype(auto) { return f(as<rc>(*pool[R])...); }); } catch (boom const &) { ex = true; }
					MC_CHECK(ex == (throwing == 1) && calls == 1, "the member function is called %d times, exception %d", calls, ex); MC_CHECK(val::copies + val::moves == 0, "arguments are copied or moved"); MC_CHECK(log_.size() == 1 + nb + sizeof...(rc) && log_[0].p == this, "another object or number of arguments: %zu", log_.size());
					if (nb > 0) MC_CHECK((log_[1] == seen{&b0, 0, 10}), "first bound argument"); if (nb > 1) MC_CHECK((log_[2] == seen{&b1, 1, 11}), "second bound argument");
					for (int i = 0; i < (int) sizeof...(rc); ++i) MC_CHECK((log_[(size_t) (1 + nb + i)] == seen{&*pool[i], rcat[i], 20 + i}), "call argument %d arrives with category %d instead of %d", i, log_[(size_t) (1 + nb + i)].cat, rcat[i]); } };
				if constexpr (nb == 0) go(DICE_MEMFN(template rec<res>)); else if constexpr (nb == 1) go(DICE_MEMFN(template rec<res>, b0)); else go(DICE_MEMFN(template rec<res>, b0, std::as_const(b1)));
			}(std::make_index_sequence<sizeof...(rc)>{});
			for (auto &p : pool) p.reset(); g_val = nullptr; }
		throwing = 0; L.expect(0);
	}
	template<int res> void all(int nb, int r) const { [&]<int... R>(std::integer_sequence<int, R...>) { ((r == R ? (nb == 0 ? this->template run<res, 0>(list<R>{}) : nb == 1 ? this->template run<res, 1>(list<R>{}) : this->template run<res, 2>(list<R>{})) : void()), ...); }(std::make_integer_sequence<int, 21>{}); }
	void extras() { auto f = DICE_MEMFN(over); MC_CHECK(f(1) == 1, "constness of the object"); static_cast<owner const *>(this)->cextras(); auto m = DICE_MEMFN(mut); int before = id; MC_CHECK(m() == before + 1 && m() == before + 2 && id == before + 2, "a mutating member"); id = before; int a = 1; auto g = DICE_MEMFN(sum, a); MC_CHECK(g() == 100 && g(2) == 120 && g(2, 3) == 123, "bound in front"); a = 4; MC_CHECK(g() == 400, "bound arguments are those of the enclosing scope"); auto n = DICE_MEMFN(noargs); MC_CHECK(n() == 55, "no arguments"); auto h = DICE_MEMFN(sum, a, a + 1); MC_CHECK(h() == 450 && h(6) == 456, "two bound arguments");
		std::vector<int> v{5, 6, 7, 8}; int c = 0; for (int x : v | std::views::filter(DICE_MEMFN(less))) c = c * 10 + x; MC_CHECK(c == 56, "as a predicate: %d", c); int s = 0; for (int x : v | std::views::transform(DICE_MEMFN(sum, 1))) s += x; MC_CHECK(s == 400 + 260, "as a transformation: %d", s); }
	void cextras() const { auto f = DICE_MEMFN(over); MC_CHECK(f(1) == 2, "constness of the object"); }
};
template<int res> static void memfn() { L.reset(); int nb = choose(3), r = choose(21); op("result %d, %d bound arguments, call arguments %d", res, nb, decode_code(r)); state((u64) (nb * 21 + r)); owner<true> o; o.template all<res>(nb, r); o.extras(); }

// ---- DICE_DBG ----
static int evals; static int next_val(int x) { ++evals; return x; } static val &lref(val &v) { ++evals; return v; } static val const &clref(val const &v) { ++evals; return v; } static val &&rref(val &&v) { ++evals; return std::move(v); }
template<> struct std::formatter<val> : std::formatter<int> { auto format(val const &v, auto &c) const { if (throwing) throw boom{}; return std::formatter<int>::format(v.get(), c); } }; template<> struct std::formatter<mov> : std::formatter<val> {};
struct capture { std::ostringstream o; std::streambuf *old; capture() : old(std::cerr.rdbuf(o.rdbuf())) {} ~capture() { std::cerr.rdbuf(old); } };
static std::string line(int l, std::string const &e, std::string const &v) { return "[adaptors.cpp:" + std::to_string(l) + "] " + e + " = " + v + "\n"; }
static void dbg() { int k = choose(11), x = choose(4) - 1; op("kind %d value %d", k, x); state((u64) (k * 4 + x)); L.reset(); evals = 0; val::copies = val::moves = 0; std::string got, want; int ln = 0; auto S = [](int v) { return std::to_string(v); };
	{ val v(x); capture c; switch (k) {
	case 0: { decltype(auto) r = DICE_DBG(lref(v)); ln = __LINE__; static_assert(std::is_same_v<decltype(r), val &>); MC_CHECK(&r == &v, "another object"); want = line(ln, "lref(v)", S(x)); break; }
	case 1: { decltype(auto) r = DICE_DBG(clref(v)); ln = __LINE__; static_assert(std::is_same_v<decltype(r), val const &>); MC_CHECK(&r == &v, "another object"); want = line(ln, "clref(v)", S(x)); break; }
	case 2: { decltype(auto) r = DICE_DBG(rref(std::move(v))); ln = __LINE__; static_assert(std::is_same_v<decltype(r), val &&>); MC_CHECK(&r == &v && v.get() == x, "another object"); want = line(ln, "rref(std::move(v))", S(x)); break; }
	case 3: { int const r = DICE_DBG(next_val(x) * 2) + 1; ln = __LINE__; MC_CHECK(r == x * 2 + 1, "value %d", r); want = line(ln, "next_val(x) * 2", S(x * 2)); break; }
	case 4: { val r = DICE_DBG((++evals, val(x))); ln = __LINE__; MC_CHECK(r.get() == x && val::moves == 1, "a temporary"); want = line(ln, "(++evals, val(x))", S(x)); val::moves = 0; break; }
	case 5: { int r = DICE_DBG(DICE_DBG(next_val(x)) - 1); ln = __LINE__; MC_CHECK(r == x - 1, "nested"); want = line(ln, "next_val(x)", S(x)) + line(ln, "DICE_DBG(next_val(x)) - 1", S(x - 1)); break; }
	case 6: { ++evals; mov m(x); mov r = DICE_DBG(std::move(m)); ln = __LINE__; MC_CHECK(r.get() == x, "move-only"); want = line(ln, "std::move(m)", S(x)); val::moves = 0; break; }
	case 7: { ++evals; char const *r = DICE_DBG("{} %d {x"); ln = __LINE__; MC_CHECK(!strcmp(r, "{} %d {x"), "a literal"); want = line(ln, "\"{} %d {x\"", "{} %d {x"); break; }
	case 8: { int &&r = std::move(DICE_DBG(evals)); ln = __LINE__; MC_CHECK(&r == &evals, "a variable"); want = line(ln, "evals", "0"); ++r; DICE_DBG(evals) = 1; want += line(__LINE__, "evals", "1"); break; }
	case 9: { throwing = 1; bool ex = false; try { (void) DICE_DBG(lref(v)); } catch (boom const &) { ex = true; } throwing = 0; MC_CHECK(ex, "an exception of the formatter is lost"); got = "x"; break; }
	case 10: { auto f = [&]() -> int { ++evals; throw boom{}; }; bool ex = false; try { (void) DICE_DBG(f()); } catch (boom const &) { ex = true; } MC_CHECK(ex && c.o.str().empty(), "something was printed for an expression that throws"); break; } }
	if (k != 9) got = c.o.str(); else got.clear(), want.clear(); }
	MC_CHECK(got == want, "printed \"%s\" instead of \"%s\"", got.c_str(), want.c_str()); MC_CHECK(evals == 1, "the expression was evaluated %d times", evals); MC_CHECK(val::copies + val::moves == 0, "the value was copied or moved"); L.expect(0); }
int main(int argc, char **argv) {
	std::vector<scenario> s;
#if PART < 7
	s.push_back({"bind_front,result" + std::to_string(PART), binding<PART>}); s.push_back({"memfn,result" + std::to_string(PART), memfn<PART>});
#else
	s.push_back({"special", special}); s.push_back({"dbg", dbg});
#endif
	return run(argc, argv, s);
}
