// range algorithms and adaptors: every short sequence in every kind of range against the naive definition.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/ranges.hpp>
#include <forward_list>
#include <list>
#include <limits>
#include <memory>
#include <array>
#include <span>
#include <sstream>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
using seqv = std::vector<int>;
struct hash_only { std::string s; bool operator==(hash_only const &) const = default; };
struct cmp_only { int k; std::string pad = "a string that is too long for the small buffer"; bool operator<(cmp_only const &o) const { return k < o.k; } };
struct ord_only { int k; auto operator<=>(ord_only const &) const = default; };
template<> struct std::hash<hash_only> { size_t operator()(hash_only const &h) const noexcept { return std::hash<std::string>{}(h.s); } };
static int val(int x) { return x; } static int val(double x) { return x != x ? 9 : (int) x; } static int val(char c) { return c - 'a'; } static int val(bool b) { return b; } static int val(std::string const &s) { return s.empty() ? -1 : s[0] - '0'; } static int val(hash_only const &h) { return val(h.s); } static int val(cmp_only const &c) { return c.k; } static int val(ord_only const &c) { return c.k; } static int val(seqv const &v) { return (int) v.size(); }
template<typename T> T mk(int k) { if constexpr (std::is_same_v<T, std::string>) return std::to_string(k) + " is a text that is too long for the small buffer"; else if constexpr (std::is_same_v<T, hash_only>) return {mk<std::string>(k)}; else if constexpr (std::is_same_v<T, cmp_only> || std::is_same_v<T, ord_only>) return {k}; else if constexpr (std::is_same_v<T, seqv>) return seqv((size_t) k, 1); else if constexpr (std::is_same_v<T, char>) return (char) ('a' + k); else return static_cast<T>(k); }
// pick every sequence of at most n elements of {0..a-1}
static seqv pick(int n, int a) { seqv v; int l = choose(n + 1); for (int i = 0; i < l; ++i) v.push_back(choose(a)); std::string s; for (int x : v) s += (char) ('0' + x); op("sequence %s", s.c_str()); state(s); return v; }
static std::string txt(seqv const &v) { std::string s; for (int x : v) s += (char) ('0' + x); return "[" + s + "]"; }
// single-pass: the value read is lost once the position is advanced, and shared by all copies of an iterator
template<typename T> struct once_range {
	std::vector<T> const *v; std::shared_ptr<size_t> pos = std::make_shared<size_t>(0);
	struct it { once_range *r = nullptr; using value_type = T; using difference_type = std::ptrdiff_t; using iterator_concept = std::input_iterator_tag;
		T operator*() const { MC_CHECK(*r->pos < r->v->size(), "an iterator at the end is dereferenced"); return (*r->v)[*r->pos]; } it &operator++() { MC_CHECK(*r->pos < r->v->size(), "an iterator at the end is advanced"); ++*r->pos; return *this; } void operator++(int) { ++*this; }
		friend bool operator==(it const &i, std::default_sentinel_t) { return *i.r->pos >= i.r->v->size(); } };
	it begin() { return {this}; } std::default_sentinel_t end() const { return {}; }
};
template<typename T> struct onces { std::vector<T> d; };
// move-only iterators
template<typename T> struct mo_range {
	std::vector<T> const *v; size_t pos = 0;
	struct it { mo_range *r; using value_type = T; using difference_type = std::ptrdiff_t; explicit it(mo_range *x) : r(x) {} it(it &&) = default; it &operator=(it &&) = default;
		T const &operator*() const { return (*r->v)[r->pos]; } it &operator++() { MC_CHECK(r->pos < r->v->size(), "an iterator at the end is advanced"); ++r->pos; return *this; } void operator++(int) { ++*this; }
		friend bool operator==(it const &i, std::default_sentinel_t) { return i.r->pos >= i.r->v->size(); } };
	it begin() { return it{this}; } std::default_sentinel_t end() const { return {}; }
};
template<typename T> struct nexts { std::vector<T> const *v; size_t i = 0; using value_type = T; explicit nexts(std::vector<T> const *p) : v(p) {} std::optional<T> next() { if (i >= v->size()) return std::nullopt; return (*v)[i++]; } };

// everything the algorithms say about one range; make() gives a fresh, equal range
template<typename M> static void algos(M make, seqv const &s, char const *kind) {
#define SAY(what) "%s on %s %s", what, kind, txt(s).c_str()
	using R = std::remove_reference_t<decltype(make())>; using T = std::ranges::range_value_t<R>; constexpr bool fwd = std::ranges::forward_range<R>;
	for (int k = 0; k < (std::is_same_v<T, bool> ? 2 : 3); ++k) {
		int calls = 0; auto p = [&](auto const &x) { ++calls; return val(x) == k; }; bool all = true, any = false; for (int x : s) { all = all && x == k; any = any || x == k; }
		{ auto &&r = make(); MC_CHECK(dtl::all_of(r, p) == all, SAY("all_of")); } { auto &&r = make(); MC_CHECK(dtl::all_of(std::ranges::begin(r), std::ranges::end(r), p) == all, SAY("all_of(first, last)")); } { auto &&r = make(); MC_CHECK((r | dtl::all_of(p)) == all, SAY("| all_of")); }
		{ auto &&r = make(); MC_CHECK(dtl::any_of(r, p) == any, SAY("any_of")); } { auto &&r = make(); MC_CHECK(dtl::any_of(std::ranges::begin(r), std::ranges::end(r), p) == any, SAY("any_of(first, last)")); } { auto &&r = make(); MC_CHECK((r | dtl::any_of(p)) == any, SAY("| any_of")); }
		{ auto &&r = make(); MC_CHECK(dtl::none_of(r, p) == !any, SAY("none_of")); } { auto &&r = make(); MC_CHECK(dtl::none_of(std::ranges::begin(r), std::ranges::end(r), p) == !any, SAY("none_of(first, last)")); } { auto &&r = make(); MC_CHECK((r | dtl::none_of(p)) == !any, SAY("| none_of")); }
		MC_CHECK(calls <= 9 * (int) s.size(), SAY("predicate called too often by all_of/any_of/none_of"));
		if constexpr (std::equality_comparable<T> && std::ranges::viewable_range<R &>) { // elements different from k
			seqv want, got; for (int x : s) if (x != k) want.push_back(x);
			{ auto &&r = make(); for (auto const &x : r | dtl::remove_element(mk<T>(k))) got.push_back(val(x)); MC_CHECK(got == want, SAY("remove_element")); }
			{ got.clear(); want.clear(); for (int x : s) if (x <= k) want.push_back(x); auto &&r = make(); for (auto const &x : r | dtl::remove_element(mk<T>(k), [](auto const &e, auto const &v) { return val(e) > val(v); })) got.push_back(val(x)); MC_CHECK(got == want, SAY("remove_element with a predicate")); }
		}
	}
	if constexpr (fwd) { auto &&r = make(); MC_CHECK(dtl::empty(r) == s.empty() && (r | dtl::empty) == s.empty() && dtl::empty(std::ranges::begin(r), std::ranges::end(r)) == s.empty(), SAY("empty")); MC_CHECK(dtl::non_empty(r) == !s.empty() && (r | dtl::non_empty) == !s.empty() && dtl::non_empty(std::ranges::begin(r), std::ranges::end(r)) == !s.empty(), SAY("non_empty")); }
	bool eq = true, eq2 = true, dist = true, su = true, sd = true, sp = true; seqv uniq;
	for (size_t i = 0; i < s.size(); ++i) { eq = eq && s[i] == s[0]; eq2 = eq2 && (s[i] == 0) == (s[0] == 0); for (size_t j = 0; j < i; ++j) dist = dist && s[i] != s[j]; if (i) { su = su && s[i - 1] < s[i]; sd = sd && s[i - 1] > s[i]; sp = sp && (s[i - 1] + 1) % 3 < (s[i] + 1) % 3; } if (std::find(uniq.begin(), uniq.end(), s[i]) == uniq.end()) uniq.push_back(s[i]); }
	if constexpr (std::copyable<T>) {
		auto zp = [](auto const &a, auto const &b) { return (val(a) == 0) == (val(b) == 0); };
		if constexpr (std::equality_comparable<T>) { { auto &&r = make(); MC_CHECK(dtl::all_equal(r) == eq, SAY("all_equal")); } { auto &&r = make(); MC_CHECK(dtl::all_equal(std::ranges::begin(r), std::ranges::end(r)) == eq, SAY("all_equal(first, last)")); } { auto &&r = make(); MC_CHECK((r | dtl::all_equal()) == eq, SAY("| all_equal")); } }
		{ auto &&r = make(); MC_CHECK(dtl::all_equal(r, zp) == eq2, SAY("all_equal with a predicate")); } { auto &&r = make(); MC_CHECK((r | dtl::all_equal(zp)) == eq2, SAY("| all_equal with a predicate")); }
	}
	if constexpr (dtl::ranges_algo_detail::unordered_set_elem<T> || dtl::ranges_algo_detail::set_elem<T>) {
		{ auto &&r = make(); MC_CHECK(dtl::all_distinct(r) == dist, SAY("all_distinct")); } { auto &&r = make(); MC_CHECK(dtl::all_distinct(std::ranges::begin(r), std::ranges::end(r)) == dist, SAY("all_distinct(first, last)")); } { auto &&r = make(); MC_CHECK((r | dtl::all_distinct()) == dist, SAY("| all_distinct")); }
		if constexpr (std::ranges::viewable_range<R &>) { seqv got; { auto &&r = make(); for (auto &&x : r | dtl::unique) got.push_back(val(x)); } MC_CHECK(got == uniq, "%s on %s %s: %s", "| unique", kind, txt(s).c_str(), txt(got).c_str()); got.clear(); { auto &&r = make(); for (auto &&x : dtl::unique(r)) got.push_back(val(x)); } MC_CHECK(got == uniq, SAY("unique"));
			if constexpr (fwd) { auto &&r = make(); auto u = r | dtl::unique; for (int rep = 0; rep < 2; ++rep) { got.clear(); for (auto &&x : u) got.push_back(val(x)); MC_CHECK(got == uniq, SAY("unique iterated again")); } got.clear(); auto i = u.begin(); auto j = u.begin(); while (i != u.end()) { got.push_back(val(*i)); i++; if (j != u.end()) ++j; } MC_CHECK(got == uniq, SAY("unique through two iterators")); } }
	}
	if constexpr (dtl::ranges_algo_detail::unordered_set_elem<T>) { auto never = [](auto const &, auto const &) { return false; }, same = [](auto const &a, auto const &b) { return val(a) == val(b); }; { auto &&r = make(); MC_CHECK(dtl::all_distinct(r, never), SAY("all_distinct with a predicate")); } { auto &&r = make(); MC_CHECK(dtl::all_distinct(r, same) == dist, SAY("all_distinct with a predicate")); } { auto &&r = make(); MC_CHECK((r | dtl::all_distinct(same)) == dist, SAY("| all_distinct with a predicate")); } }
	if constexpr (std::copyable<T>) {
		auto less = [](auto const &a, auto const &b) { return val(a) < val(b); }; auto greater = [](auto const &a, auto const &b) { return val(a) > val(b); }; auto proj = [](auto const &a) { return (val(a) + 1) % 3; };
		if constexpr (std::totally_ordered<T>) { { auto &&r = make(); MC_CHECK(dtl::is_sorted_unique(r) == su, SAY("is_sorted_unique")); } { auto &&r = make(); MC_CHECK(dtl::is_sorted_unique(std::ranges::begin(r), std::ranges::end(r)) == su, SAY("is_sorted_unique(first, last)")); } { auto &&r = make(); MC_CHECK((r | dtl::is_sorted_unique()) == su, SAY("| is_sorted_unique")); } }
		{ auto &&r = make(); MC_CHECK(dtl::is_sorted_unique(r, less) == su, SAY("is_sorted_unique with less")); } { auto &&r = make(); MC_CHECK(dtl::is_sorted_unique(r, greater) == sd, SAY("is_sorted_unique with greater")); } { auto &&r = make(); MC_CHECK((r | dtl::is_sorted_unique(greater)) == sd, SAY("| is_sorted_unique with greater")); }
		{ auto &&r = make(); MC_CHECK(dtl::is_sorted_unique(r, std::ranges::less{}, proj) == sp, SAY("is_sorted_unique with a projection")); } { auto &&r = make(); MC_CHECK((r | dtl::is_sorted_unique(std::ranges::less{}, proj)) == sp, SAY("| is_sorted_unique with a projection")); } { auto &&r = make(); MC_CHECK(dtl::is_sorted_unique(std::ranges::begin(r), std::ranges::end(r), std::ranges::less{}, proj) == sp, SAY("is_sorted_unique(first, last) with a projection")); }
	}
	observe(mix(dist * 8 + su * 4 + eq, s.size()));
}
template<typename T> static void containers(int n) {
	seqv s = pick(n, 3); std::vector<T> v; for (int x : s) v.push_back(mk<T>(x)); std::vector<T> const c = v;
	algos([&]() -> std::vector<T> & { return v; }, s, "vector"); algos([&]() -> std::vector<T> const & { return c; }, s, "const vector");
	{ std::list<T> l(v.begin(), v.end()); algos([&]() -> std::list<T> & { return l; }, s, "list"); std::forward_list<T> f(v.begin(), v.end()); algos([&]() -> std::forward_list<T> & { return f; }, s, "forward_list"); }
	algos([&] { return std::span<T>(v); }, s, "span"); algos([&] { return std::ranges::subrange(v.begin(), v.end()); }, s, "subrange"); algos([&] { return v | std::views::transform([](T const &x) { return x; }); }, s, "transform");
	{ std::vector<std::vector<T>> holders; holders.reserve(200); algos([&] { holders.push_back(v); return holders.back() | std::views::as_rvalue; }, s, "as_rvalue"); }
	algos([&] { return once_range<T>{&v}; }, s, "single-pass range"); algos([&] { return mo_range<T>{&v}; }, s, "range with move-only iterators"); algos([&] { return dtl::next_to_view<nexts<T>>(&v); }, s, "next_to_view");
	for (size_t i = 0; i < v.size(); ++i) MC_CHECK(val(v[i]) == s[i], "the input was modified");
	MC_CHECK(v.size() == s.size(), "the input was modified");
}
static void specials(int n) {
	seqv s = pick(n, 3); std::string digits, letters; for (int x : s) { digits += std::to_string(x) + " "; letters += (char) ('a' + x); }
	std::list<std::istringstream> keep; auto strm = [&](std::string const &t) -> std::istringstream & { return keep.emplace_back(t); };
	algos([&] { return std::ranges::subrange(std::istream_iterator<int>(strm(digits)), std::istream_iterator<int>()); }, s, "istream_iterator"); algos([&] { return std::views::istream<int>(strm(digits)); }, s, "views::istream"); algos([&] { return std::ranges::subrange(std::istreambuf_iterator<char>(strm(letters)), std::istreambuf_iterator<char>()); }, s, "istreambuf_iterator");
	bool two = true; for (int x : s) two = two && x < 2; if (two) { std::vector<bool> b; for (int x : s) b.push_back(x); algos([&]() -> std::vector<bool> & { return b; }, s, "vector<bool>"); algos([&] { return std::as_const(b) | std::views::all; }, s, "const vector<bool>"); }
	if (s.size() == 3) { int a[3] = {s[0], s[1], s[2]}; algos([&]() -> int (&)[3] { return a; }, s, "array"); }
	algos([&] { return std::views::iota((size_t) 0, s.size()) | std::views::transform([&](size_t i) { return s[i]; }); }, s, "iota | transform"); algos([&] { return s | std::views::reverse | std::views::reverse; }, s, "reverse"); algos([&] { return s | std::views::filter([](int) { return true; }); }, s, "filter"); algos([&] { return s | std::views::take_while([](int) { return true; }); }, s, "take_while");
	// owning views and temporaries
	seqv uniq, got; for (int x : s) if (std::find(uniq.begin(), uniq.end(), x) == uniq.end()) uniq.push_back(x);
	for (int x : seqv(s) | dtl::unique) got.push_back(x); MC_CHECK(got == uniq, "unique over a temporary"); got.clear(); for (int x : seqv(s) | dtl::remove_element(1) | dtl::unique) got.push_back(x); std::erase(uniq, 1); MC_CHECK(got == uniq, "remove_element | unique"); got.clear(); for (int x : seqv(s) | dtl::unique | dtl::remove_element(1)) got.push_back(x); MC_CHECK(got == uniq, "unique | remove_element");
	{ seqv m = s; for (int &x : m | dtl::unique) x += 10; seqv e = s; seqv seen; for (int &x : e) if (std::find(seen.begin(), seen.end(), x) == seen.end()) { seen.push_back(x); x += 10; } MC_CHECK(m == e, "writing through unique"); }
	std::vector<std::unique_ptr<int>> up; for (int x : s) up.push_back(std::make_unique<int>(x)); bool any = false; for (int x : s) any = any || x == 1; MC_CHECK(dtl::any_of(up, [](auto const &p) { return *p == 1; }) == any && (up | dtl::none_of([](auto const &p) { return *p == 1; })) == !any && dtl::is_sorted_unique(up, std::ranges::less{}, [](auto const &p) { return *p; }) == (std::adjacent_find(s.begin(), s.end(), std::greater_equal<>{}) == s.end()), "move-only elements");
	static_assert(dtl::all_of(std::array{1, 2}, [](int x) { return x > 0; }) && dtl::is_sorted_unique(std::array{1, 2, 5}) && !dtl::empty(std::array{1}));
}
// three-way lexicographic comparison of all pairs
template<typename T> static T mkd(int k) { if constexpr (std::is_floating_point_v<T>) return k == 3 ? std::numeric_limits<T>::quiet_NaN() : k == 2 ? -0.0 : k; else return mk<T>(k); }
template<typename T> static void lex(int n, int alpha) {
	seqv a = pick(n, alpha), b = pick(n, alpha); std::vector<T> x, y; for (int k : a) x.push_back(mkd<T>(k)); for (int k : b) y.push_back(mkd<T>(k));
	auto naive = [&](auto cmp, auto p1, auto p2) { using C = decltype(cmp(p1(x[0]), p2(y[0]))); for (size_t i = 0; i < x.size() && i < y.size(); ++i) { auto c = cmp(p1(x[i]), p2(y[i])); if (c != 0) return C(c); } return C(x.size() <=> y.size()); };
	auto same = [](auto got, auto want) { static_assert(std::is_same_v<decltype(got), decltype(want)>); return (got < 0) == (want < 0) && (got > 0) == (want > 0) && (got == 0) == (want == 0); };
	auto id = [](auto const &v) -> auto const & { return v; }; auto len = [](T const &v) { if constexpr (std::is_same_v<T, double>) return v * 2; else return val(v) / 2; }; auto neg = [](T const &v) { if constexpr (std::is_same_v<T, double>) return -v; else return -val(v); }; auto rev = [](auto const &p, auto const &q) { return q <=> p; }; auto weak = [](auto const &p, auto const &q) -> std::weak_ordering { return val(p) / 2 <=> val(q) / 2; };
#define LEX(what, got, want) MC_CHECK(same(got, want), "lexicographical_compare_three_way%s of %s and %s", what, txt(a).c_str(), txt(b).c_str())
	auto const &f = dtl::lexicographical_compare_three_way; std::compare_three_way c3;
	LEX("", f(x, y), naive(c3, id, id)); LEX("(iterators)", f(x.begin(), x.end(), y.begin(), y.end()), naive(c3, id, id)); LEX(" reversed comparison", f(x, y, rev), naive(rev, id, id)); LEX(" with projections", f(x, y, c3, len, neg), naive(c3, len, neg)); LEX("(iterators) with projections", f(x.begin(), x.end(), y.begin(), y.end(), c3, neg, len), naive(c3, neg, len));
	if constexpr (std::is_same_v<T, int>) { LEX(" with a weak comparison", f(x, y, weak), naive(weak, id, id)); std::list<long> l(y.begin(), y.end()); LEX(" of different ranges", f(x, l), naive(c3, id, id)); LEX(" of single-pass ranges", f(once_range<int>{&x}, once_range<int>{&y}), naive(c3, id, id)); LEX(" of ranges with move-only iterators", f(mo_range<int>{&x}, mo_range<int>{&y}), naive(c3, id, id)); LEX(" of views", f(x | std::views::take(10), dtl::next_to_view<nexts<int>>(&y)), naive(c3, id, id)); }
	auto w = naive(c3, id, id); observe(w < 0 ? 1 : w > 0 ? 2 : w == 0 ? 3 : 4);
}
int main(int argc, char **argv) {
	std::vector<scenario> v; int const n = (THOROUGH ? 6 : 5) + DEPTH;
#define ONE(T) v.push_back({"algos," #T, [=] { containers<T>(n); }})
#if PART == 0
	ONE(int);
#elif PART == 1
	ONE(std::string);
#elif PART == 2
	ONE(hash_only); ONE(cmp_only);
#elif PART == 3
	ONE(ord_only); ONE(seqv);
#elif PART == 4
	v.push_back({"kinds", [=] { specials(n); }});
#else
	v.push_back({"lex,int", [=] { lex<int>(n - 1, 4); }}); v.push_back({"lex,string", [=] { lex<std::string>(n - 2, 3); }}); v.push_back({"lex,ord", [=] { lex<ord_only>(n - 2, 3); }}); v.push_back({"lex,double", [=] { lex<double>(n - 2, 4); }});
#endif
	return run(argc, argv, split(v, 2));
}
