// next_to_iter / next_to_range / next_to_view: every traversal of every short sequence.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/next_to_range.hpp>
#include <memory>
#include <ranges>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
// values: an int or an owning string-like type
static int val(int x) { return x; }
static int val(std::string const &s) { return (int) s.size() - 20; }
template<typename T> T mk(int k); template<> int mk<int>(int k) { return k; } template<> std::string mk<std::string>(int k) { return std::string((size_t) k + 20, 'x'); }
// the rust-style iterator: elements [lo, hi) of 0..; COPY copyable, NTH has nth, BACK: 0 none, 1 next_back, 2 next_back+nth_back, SIZED has remaining
template<typename T, bool COPY> struct core {
	using value_type = T;
	int lo, hi;
	explicit core(int n) : lo(0), hi(n) {}
	core(int a, int b) : lo(a), hi(b) {}
	core(core const &) requires(COPY) = default; core &operator=(core const &) requires(COPY) = default;
	core(core &&o) noexcept : lo(o.lo), hi(o.hi) { if (!COPY) o.lo = o.hi = 0; }
	core &operator=(core &&) = default;
	std::optional<T> next() { if (lo >= hi) return std::nullopt; return mk<T>(lo++); }
};
template<typename C> struct with_nth : C { using C::C; std::optional<typename C::value_type> nth(size_t k) { if (k >= (size_t) (this->hi - this->lo)) { this->lo = this->hi; return std::nullopt; } this->lo += (int) k; return this->next(); } };
template<typename C> struct with_back : C { using C::C; std::optional<typename C::value_type> next_back() { if (this->lo >= this->hi) return std::nullopt; return mk<typename C::value_type>(--this->hi); } };
template<typename C> struct with_nth_back : with_back<C> { using with_back<C>::with_back; std::optional<typename C::value_type> nth_back(size_t k) { if (k >= (size_t) (this->hi - this->lo)) { this->hi = this->lo; return std::nullopt; } this->hi -= (int) k; return this->next_back(); } };
template<typename C> struct with_size : C { using C::C; size_t remaining() const noexcept { return (size_t) (this->hi - this->lo); } };
template<typename I> constexpr bool copyable = std::is_copy_constructible_v<I>;
// a model of a traversal: elements left to produce [lo, hi), the current one, the direction
struct model { int lo, hi; bool rev; int cur; // cur < 0: end
	int take() { if (lo >= hi) return -1; return rev ? --hi : lo++; }
	int opposite() { if (lo >= hi) return -1; return rev ? lo++ : --hi; }
	int skip(int k) { int r = -1; while (k-- > 0) { r = take(); if (r < 0) break; } return r; } };
template<typename It, bool SKIP, bool OPP> static void drive(It it, model m, int depth) {
	constexpr bool cp = std::is_copy_constructible_v<It>;
	static_assert(std::input_iterator<It> || !cp); static_assert(std::sentinel_for<std::default_sentinel_t, It> || !cp);
	bool peeked = false; int pk = -1;
	auto step = [&] { if (peeked) { peeked = false; return pk; } return m.take(); };
	std::vector<std::pair<std::unique_ptr<It>, model>> copies; // copies must stay where they were
	auto check = [&] {
		MC_CHECK((it == std::default_sentinel) == (m.cur < 0) && (std::default_sentinel == it) == (m.cur < 0) && (it != std::default_sentinel) == (m.cur >= 0), "the iterator %s at the end", m.cur < 0 ? "is not" : "is");
		if (m.cur >= 0) MC_CHECK(val(*it) == m.cur && val(*std::as_const(it)) == m.cur && it.operator->() == &*it, "the iterator is at %d, expected %d", val(*it), m.cur);
		u64 h = mix(mix((u64) m.lo, (u64) m.hi), mix((u64) m.cur, peeked * 64 + (u64) pk)); state(h); observe(h);
	};
	check();
	for (int d = 0; d < depth; ++d) {
		int o = choose(9);
		if (m.cur < 0 && o != 2 && o != 5) break;
		if (o == 0) { op("++it"); It &r = ++it; MC_CHECK(&r == &it, "++ returns something else"); m.cur = step(); }
		else if (o == 1) { op("it++"); if constexpr (cp) { int was = m.cur; It r = it++; MC_CHECK(r != std::default_sentinel && val(*r) == was, "it++ returns %d, expected %d", val(*r), was); ++r; m.cur = step(); MC_CHECK(m.cur < 0 ? r == std::default_sentinel : val(*r) == m.cur, "the result of it++ does not continue with the next element"); } else { static_assert(std::is_void_v<decltype(it++)>); it++; m.cur = step(); } }
		else if (o == 2) { op("peek"); if (!peeked || pk < 0) { pk = m.take(); peeked = pk >= 0; } auto const &p = it.peek(); MC_CHECK(p.has_value() == peeked && (!peeked || val(*p) == pk), "peek gives %d, expected %d", p ? val(*p) : -1, peeked ? pk : -1); }
		else if (o == 3) { if constexpr (SKIP) { int k = choose(4); op("it += %d", k); It &r = it += (size_t) k; MC_CHECK(&r == &it, "+= returns something else"); for (int i = 0; i < k && m.cur >= 0; ++i) m.cur = step(); peeked = peeked && m.cur >= 0; } else break; }
		else if (o == 4) { if constexpr (SKIP && cp) { int k = choose(4); op("it + %d", k); model q = m; bool qp = peeked; for (int i = 0; i < k && q.cur >= 0; ++i) { q.cur = qp ? pk : q.take(); qp = false; } It r = it + (size_t) k; MC_CHECK(q.cur < 0 ? r == std::default_sentinel : r != std::default_sentinel && val(*r) == q.cur, "it + %d is at %d, expected %d", k, r == std::default_sentinel ? -1 : val(*r), q.cur); } else break; }
		else if (o == 5) { if constexpr (cp) { int k = choose(5); op("copy, form %d", k); model q = m;
				auto same = [&](It const &c) { MC_CHECK(q.cur < 0 ? c == std::default_sentinel : c != std::default_sentinel && val(*c) == q.cur, "a copy is at another element"); copies.emplace_back(std::make_unique<It>(c), q); if (peeked) { auto const &p = copies.back().first->peek(); MC_CHECK(p && val(*p) == pk, "a copy has lost the peeked element"); copies.back().second = q; } };
				if (k == 0) { It c = it; same(c); } else if (k == 1) { It c(it); same(c); } else if (k == 2) { It const &r = it; It c{r}; same(c); } else if (k == 3) { auto f = [it]() -> It const & { return it; }; same(f()); } else { std::optional<It> c; c.emplace(it); same(*c); It e = std::as_const(it); e = *c; same(e); } } else break; }
		else if (o == 6) { if constexpr (OPP) { op("consume at the other end"); int e = m.opposite(); std::optional<typename It::value_type> r; if (m.rev) r = static_cast<typename It::base_iterator &>(it).next(); else if constexpr (dtl::next_back_iterator<typename It::base_iterator>) r = static_cast<typename It::base_iterator &>(it).next_back(); MC_CHECK(r.has_value() == (e >= 0) && (!r || val(*r) == e), "the other end gives %d, expected %d", r ? val(*r) : -1, e); } else break; }
		else if (o == 7) { op("moved"); It t(std::move(it)); it = std::move(t); }
		else { op("write through *it"); *it = mk<typename It::value_type>(50 + d); m.cur = 50 + d; }
		check();
	}
	for (auto &[c, q] : copies) MC_CHECK(q.cur < 0 ? *c == std::default_sentinel : val(**c) == q.cur, "a copy moved along with its source");
	copies.clear();
	// the rest comes out once each, in order
	while (m.cur >= 0) { ++it; m.cur = step(); check(); }
}
template<typename Rg> static std::vector<int> all(Rg &&r) { std::vector<int> v; for (auto const &x : r) { v.push_back(val(x)); MC_CHECK(v.size() < 50, "the traversal does not end"); } return v; }
template<typename I> static void range(int maxn) {
	using R = dtl::next_to_range<I>; constexpr bool cp = copyable<I>, back = dtl::next_back_iterator<I>, sized = dtl::sized_next_iterator<I>;
	int a = choose(maxn + 1), b = a + choose(maxn + 1 - a); op("range [%d,%d)", a, b);
	static_assert(std::ranges::input_range<R> || !cp); static_assert(!std::ranges::view<R>);
	R r(a, b); std::vector<int> e, re; for (int i = a; i < b; ++i) e.push_back(i); re.assign(e.rbegin(), e.rend()); state((u64) (a * 100 + b));
	MC_CHECK(all(r) == e && all(r) == e && all(std::as_const(r)) == e, "range-for gives other elements");
	{ auto i = r.begin(); auto j = r.cbegin(); std::vector<int> x, y; while (i != r.end() || j != r.cend()) { if (i != r.end()) { x.push_back(val(*i)); ++i; } if (j != r.cend()) { y.push_back(val(*j)); ++j; if (j != r.cend()) { y.push_back(val(*j)); ++j; } } } MC_CHECK(x == e && y == e, "two iterators of one range interfere"); }
	if constexpr (back) { std::vector<int> x; for (auto i = r.rbegin(); i != r.rend(); ++i) x.push_back(val(*i)); MC_CHECK(x == re, "backwards iteration gives other elements"); x.clear(); for (auto i = r.crbegin(); i != r.crend(); ++i) x.push_back(val(*i)); MC_CHECK(x == re, "crbegin gives other elements"); MC_CHECK(all(r.reversed()) == re, "reversed() gives other elements"); }
	if constexpr (cp && sized) { MC_CHECK(r.size() == e.size() && r.empty() == e.empty() && static_cast<bool>(r) == !e.empty() && std::ranges::size(r) == e.size() && std::ranges::empty(r) == e.empty(), "size/empty wrong"); static_assert(std::ranges::sized_range<R>); }
	if constexpr (cp) { R c(std::as_const(r)); MC_CHECK(all(c) == e && all(r) == e, "a copied range gives other elements"); I base(a, b); R d(base); MC_CHECK(all(d) == e, "a range made from an iterator gives other elements"); MC_CHECK(all(dtl::next_to_range<I>(I(a, b))) == e, "temporary range"); }
	if constexpr (cp) {
		using V = dtl::next_to_view<I>; static_assert(std::ranges::view<V> && std::ranges::input_range<V>);
		V v(a, b); MC_CHECK(all(v) == e && all(v) == e, "the view gives other elements");
		V w = v; MC_CHECK(all(w) == e, "a copied view gives other elements"); V z(I(a, b)); MC_CHECK(all(z) == e, "a view made from an iterator");
		MC_CHECK(all(v | std::views::transform([](auto const &x) { return val(x) * 2; })).size() == e.size() && all(v | std::views::filter([](auto const &x) { return val(x) % 2 == 0; })).size() == (size_t) std::count_if(e.begin(), e.end(), [](int x) { return x % 2 == 0; }), "a pipeline over the view gives other elements");
		if (!e.empty()) { MC_CHECK(val(v.front()) == e.front() && val(v.front()) == e.front(), "front wrong"); if constexpr (back) MC_CHECK(val(v.back()) == e.back(), "back wrong"); }
		if constexpr (back) { std::vector<int> x; for (auto i = v.rbegin(); i != v.rend(); ++i) x.push_back(val(*i)); MC_CHECK(x == re, "backwards iteration of the view"); x.clear(); for (auto i = v.crbegin(); i != v.crend(); ++i) x.push_back(val(*i)); MC_CHECK(x == re && all(v.reversed()) == re, "reversed view"); }
		if constexpr (sized) MC_CHECK(v.size() == e.size() && v.empty() == e.empty() && static_cast<bool>(v) == !e.empty(), "size of the view");
		if constexpr (dtl::nth_iterator<I>) {
			for (size_t k = 0; k < e.size(); ++k) MC_CHECK(val(v[k]) == e[k], "view[%zu] is %d, expected %d", k, val(v[k]), e[k]);
			for (size_t k = 0; k <= e.size() + 1; ++k) for (size_t l = 0; l <= 2; ++l) { V q = v; V &ref = q.advance(k); q.advance(l); size_t s = std::min(e.size(), k + l); MC_CHECK(&ref == &q && all(q) == std::vector<int>(e.begin() + (long) s, e.end()), "advance(%zu), advance(%zu) leaves other elements", k, l); if constexpr (sized) MC_CHECK(q.size() == e.size() - s, "size after advance"); if (s < e.size()) MC_CHECK(val(q.front()) == e[s] && val(q[0]) == e[s], "front after advance"); MC_CHECK(all(v) == e, "a copy of the view was advanced too"); }
		}
		if constexpr (sized && back) MC_CHECK(dtl::sized_next_iterator<typename V::iterator>, "the iterator hides remaining()");
	}
}
template<typename I> static void iter(int maxn, int depth) {
	int rev = dtl::next_back_iterator<I> ? choose(2) : 0, n = choose(maxn + 1); op("sequence of %d, %s", n, rev ? "backwards" : "forwards"); model m{0, n, (bool) rev, 0}; m.cur = m.take();
	if (!rev) drive<dtl::next_to_iter<I>, dtl::nth_iterator<I>, dtl::next_back_iterator<I>>(dtl::next_to_iter<I>(n), m, depth);
	else if constexpr (dtl::next_back_iterator<I>) drive<dtl::next_back_to_reverse_iter<I>, dtl::nth_back_iterator<I>, true>(dtl::next_back_to_reverse_iter<I>(n), m, depth);
}
int main(int argc, char **argv) {
	int d = (THOROUGH ? 6 : 5) + DEPTH, n = THOROUGH ? 6 : 5; std::vector<scenario> v;
	using C = core<int, true>; using S = core<std::string, true>; using M = core<int, false>; using N = with_nth<C>; using NB = with_nth_back<with_nth<C>>; using NS = with_size<NB>; using B = with_back<C>; using SB = with_size<with_nth_back<with_nth<S>>>; using MB = with_nth_back<with_nth<M>>; using BS = with_size<with_back<C>>; using MS = with_size<M>;
#define ONE(X) v.push_back({"iter," #X, [=] { iter<X>(n, d); }}); v.push_back({"range," #X, [=] { range<X>(n + 3); }})
	ONE(C); ONE(S); ONE(M); ONE(N); ONE(NB); ONE(NS); ONE(B); ONE(SB); ONE(MB); ONE(BS); ONE(MS);
	if (DEPTH == 0) v = split(v, 2);
	return run(argc, argv, v);
}
