// range(start, stop, step): all 8-bit triples, boundary triples of wider types, every mixed consumption order.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/ranges.hpp>
#include <chrono>
#include <climits>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
using wide = __int128; using uwide = unsigned __int128;
static void put(char *b, wide v) { bool neg = v < 0; uwide u = neg ? -(uwide) v : (uwide) v; char t[50]; int n = 0; do { t[n++] = (char) ('0' + (int) (u % 10)); u /= 10; } while (u); if (neg) *b++ = '-'; while (n) *b++ = t[--n]; *b = 0; }
struct str { char b[50]; explicit str(wide v) { put(b, v); } };
#define W(x) str((wide) (x)).b
// the definition: the values start + i*step, i in [lo, hi)
struct model {
	wide start, step; u64 lo, hi;
	model(wide a, wide b, wide s) : start(a), step(s), lo(0) { if (s > 0 ? a >= b : a <= b) hi = 0; else hi = (u64) ((s > 0 ? (uwide) (b - a) + (uwide) s - 1 : (uwide) (a - b) + (uwide) -s - 1) / (uwide) (s > 0 ? s : -s)); }
	u64 left() const { return hi - lo; }
	wide at(u64 i) const { return start + (wide) i * step; }
};
template<typename T, typename S> using riter = dtl::ranges_algo_detail::range_iterator<T, S>;
// every aspect of one triple
template<typename T, typename S> static void triple(T a, T b, S s) {
	model m((wide) a, (wide) b, (wide) s); auto const r = dtl::range<T, S>(a, b, s);
	static_assert(std::ranges::view<decltype(dtl::range<T, S>(a, b, s))> && std::ranges::sized_range<decltype(dtl::range<T, S>(a, b, s))>);
#define CTX "range(%s,%s,%s): "
#define CTXA W(a), W(b), W(s)
	MC_CHECK(r.size() == m.left() && r.empty() == (m.left() == 0) && static_cast<bool>(r) == (m.left() != 0) && std::ranges::size(r) == m.left(), CTX "size %zu, expected %s", CTXA, r.size(), W(m.left()));
	u64 n = m.left(), cap = n < 300 ? n : 3, i = 0;
	for (auto it = r.begin(); it != r.end(); ++it, ++i) { if (i == cap && cap < n) break; MC_CHECK(i < n && (wide) *it == m.at(i), CTX "element %s is %s, expected %s", CTXA, W(i), W(*it), i < n ? W(m.at(i)) : "the end"); }
	MC_CHECK(i == cap, CTX "iteration ends after %s of %s elements", CTXA, W(i), W(n));
	i = 0;
	for (auto it = r.rbegin(); it != r.rend(); ++it, ++i) { if (i == cap && cap < n) break; MC_CHECK(i < n && (wide) *it == m.at(n - 1 - i), CTX "element %s from the back is %s, expected %s", CTXA, W(i), W(*it), i < n ? W(m.at(n - 1 - i)) : "the end"); }
	MC_CHECK(i == cap, CTX "backwards iteration ends after %s of %s elements", CTXA, W(i), W(n));
	if (n) { MC_CHECK((wide) r.front() == m.at(0) && (wide) r.back() == m.at(n - 1), CTX "front %s back %s", CTXA, W(r.front()), W(r.back())); }
	else MC_CHECK(r.begin() == r.end() && r.rbegin() == r.rend(), CTX "not empty", CTXA);
	u64 pos[] = {0, 1, 2, n / 2, n - 2, n - 1, n, n + 1, (u64) -1};
	for (u64 p : pos) {
		riter<T, S> x(a, b, s); auto y = x.nth((size_t) p); MC_CHECK(y.has_value() == (p < n) && (!y || (wide) *y == m.at(p)) && x.remaining() == (p < n ? n - p - 1 : 0), CTX "nth(%s)", CTXA, W(p));
		riter<T, S> z(a, b, s); auto w = z.nth_back((size_t) p); MC_CHECK(w.has_value() == (p < n) && (!w || (wide) *w == m.at(n - 1 - p)) && z.remaining() == (p < n ? n - p - 1 : 0), CTX "nth_back(%s)", CTXA, W(p));
		if (p < n) MC_CHECK((wide) r[(size_t) p] == m.at(p), CTX "[%s] is %s", CTXA, W(p), W(r[(size_t) p]));
		auto adv = r; adv.advance((size_t) p); MC_CHECK(adv.size() == (p < n ? n - p : 0) && (p >= n || (wide) adv.front() == m.at(p)), CTX "advance(%s)", CTXA, W(p));
	}
	++E.transitions; ++E.beat;
}
template<typename T, typename S> static void all8(int block, int blocks) {
	int smin = std::numeric_limits<S>::min(), smax = std::numeric_limits<S>::max();
	if (sizeof(S) > 1) { smin = -300; smax = 300; }
	for (int s = smin; s <= smax; ++s) if (s != 0 && ((unsigned) (s - smin)) % (unsigned) blocks == (unsigned) block) {
		for (int a = std::numeric_limits<T>::min(); a <= std::numeric_limits<T>::max(); ++a) for (int b = std::numeric_limits<T>::min(); b <= std::numeric_limits<T>::max(); ++b) triple<T, S>((T) a, (T) b, (S) s);
		state((u64) (s + 1000));
	}
}
// ranges by their bounds only
template<typename T> static void two(T a, T b) {
	auto chk = [&](auto const &r, model m) { MC_CHECK(r.size() == m.left() && (!m.left() || ((wide) r.front() == m.at(0) && (wide) r.back() == m.at(m.left() - 1))), "range(%s,%s) or range(%s)", W(a), W(b), W(b)); u64 i = 0; for (T x : r) { if (i >= 300) break; MC_CHECK((wide) x == m.at(i), "range(%s,%s): element %s", W(a), W(b), W(i)); ++i; } MC_CHECK(i == std::min<u64>(300, m.left()), "range(%s,%s) or range(%s): %s elements, expected %s", W(a), W(b), W(b), W(i), W(m.left())); };
	chk(dtl::range<T>(a, b), model((wide) a, (wide) b, 1)); chk(dtl::range<T>(b), model(0, (wide) b, 1)); static_assert(std::is_same_v<decltype(dtl::range<T>(a, b)), dtl::range_view<T, T>>);
	++E.transitions;
}
template<typename T> static std::vector<T> bounds() {
	std::vector<T> v; using L = std::numeric_limits<T>; T lo = L::min(), hi = L::max();
	for (int k = 0; k < 4; ++k) { v.push_back((T) (lo + (T) k)); v.push_back((T) (hi - (T) k)); }
	for (int k : {0, 1, 2, 3, 5, 7, 10}) { v.push_back((T) k); if (std::is_signed_v<T>) v.push_back((T) -k); }
	v.push_back((T) (hi / 2)); v.push_back((T) (hi / 2 + 1)); if (std::is_signed_v<T>) v.push_back((T) (lo / 2)); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
template<typename T, typename S> static void edge() { for (T a : bounds<T>()) for (T b : bounds<T>()) { two<T>(a, b); for (S s : bounds<S>()) if (s != 0) triple<T, S>(a, b, s); state(mix((u64) a, (u64) b)); } }
// every order of consumption from both ends
template<typename T, typename S> static void mixed(int depth, std::vector<T> const &vals, std::vector<S> const &steps) {
	T a = vals[(size_t) choose((int) vals.size())], b = vals[(size_t) choose((int) vals.size())]; S s = steps[(size_t) choose((int) steps.size())];
	op("range(%s,%s,%s)", W(a), W(b), W(s)); model m((wide) a, (wide) b, (wide) s); riter<T, S> it(a, b, s);
	auto check = [&](std::optional<T> const &r, bool has, wide want, char const *what) { MC_CHECK(r.has_value() == has && (!has || (wide) *r == want), CTX "%s gives %s, expected %s", CTXA, what, r ? W(*r) : "nothing", has ? W(want) : "nothing"); };
	for (int d = 0; d < depth; ++d) {
		MC_CHECK(it.remaining() == m.left(), CTX "remaining() is %zu, expected %s", CTXA, it.remaining(), W(m.left()));
		int o = choose(9);
		if (o < 4) { u64 k = o == 3 ? m.left() / 2 : (u64) o; op("nth(%s)", W(k)); bool has = k < m.left(); wide w = has ? m.at(m.lo + k) : 0; auto r = o == 0 ? it.next() : it.nth((size_t) k); check(r, has, w, "next/nth"); m.lo = has ? m.lo + k + 1 : m.hi; }
		else if (o < 8) { o -= 4; u64 k = o == 3 ? m.left() / 2 : (u64) o; op("nth_back(%s)", W(k)); bool has = k < m.left(); wide w = has ? m.at(m.hi - 1 - k) : 0; auto r = o == 0 ? it.next_back() : it.nth_back((size_t) k); check(r, has, w, "next_back/nth_back"); m.hi = has ? m.hi - k - 1 : m.lo; }
		else { op("copy"); auto c = it; auto r = c.next(); check(r, m.left() > 0, m.left() ? m.at(m.lo) : 0, "next on a copy"); auto e = it; r = e.next_back(); check(r, m.left() > 0, m.left() ? m.at(m.hi - 1) : 0, "next_back on a copy"); }
		state(mix(mix(m.lo, m.hi), mix((u64) a, (u64) s)));
	}
	for (int i = 0; i < 3; ++i) { MC_CHECK(it.remaining() == m.left(), CTX "remaining() is %zu, expected %s", CTXA, it.remaining(), W(m.left())); auto r = it.next_back(); bool has = m.left() > 0; check(r, has, has ? m.at(m.hi - 1) : 0, "next_back at the end"); if (has) --m.hi; has = m.left() > 0; r = it.next(); check(r, has, has ? m.at(m.lo) : 0, "next at the end"); if (has) ++m.lo; }
	observe(mix(m.lo, m.hi));
}
// value types that are no integers: only forward traversal is defined
template<typename T, typename S> static void other(char const *what, T a, T b, S s, std::vector<T> const &want) { op("%s", what); auto r = dtl::range<T, S>(a, b, s); static_assert(!std::ranges::sized_range<decltype(r)>); size_t i = 0; for (auto x : r) { MC_CHECK(i < want.size() && x == want[i], "%s: element %zu is wrong", what, i); ++i; } MC_CHECK(i == want.size(), "%s: %zu elements, expected %zu", what, i, want.size()); state(hash_str(what) + i); }
static void others() {
	using namespace std::chrono; using namespace std::chrono_literals;
	for (int a = -6; a <= 6; ++a) for (int b = -6; b <= 6; ++b) for (int s = -5; s <= 5; ++s) if (s) {
		model m(a, b, s); std::vector<seconds> w; std::vector<year_month_day> y; std::vector<double> f; std::vector<int> im;
		for (u64 i = 0; i < m.left(); ++i) { int k = (int) m.at(i); w.push_back(seconds{k}); y.push_back(year{2000 + k} / 3 / 4); f.push_back(k * 0.25); im.push_back(k); }
		other("seconds", seconds{a}, seconds{b}, seconds{s}, w); if (s) other("years", year_month_day(year{2000 + a} / 3 / 4), year_month_day(year{2000 + b} / 3 / 4), years{s}, y); other("double", a * 0.25, b * 0.25, s * 0.25, f);
	}
	bool thrown = false; try { auto r = dtl::range<int, int>(0, 3, 0); (void) r; } catch (std::invalid_argument const &) { thrown = true; } MC_CHECK(thrown, "a step of zero is accepted");
	thrown = false; try { auto r = dtl::range<unsigned, int>(3, 3, 0); (void) r; } catch (std::invalid_argument const &) { thrown = true; } MC_CHECK(thrown, "a step of zero is accepted");
	dtl::range_view<int, int> d{}; MC_CHECK(d.empty() && d.begin() == d.end(), "a default constructed range is not empty");
	static_assert([] { int n = 0; for (int x : dtl::range<int, int>(10, -11, -3)) n = n * 2 + x; return n; }() != 0 && dtl::range<unsigned char, int>(0, 255, 10).size() == 26);
	static_assert([] { std::vector<int> v; for (unsigned char x : dtl::range<unsigned char, unsigned char>(0, 255, 10)) v.push_back(x); return v.size() == 26 && v.back() == 250; }());
}
// pipelines over a range, all small triples
static void pipes() {
	int a = choose(7) - 3, b = choose(9) - 4, s = choose(6) - 3; if (s >= 0) ++s; op("range(%d,%d,%d)", a, b, s); model m(a, b, s); std::vector<int> w; for (u64 i = 0; i < m.left(); ++i) w.push_back((int) m.at(i));
	auto r = dtl::range<int, int>(a, b, s); auto eq = [&](auto &&v, std::vector<int> const &e, char const *what) { std::vector<int> g; for (int x : v) { g.push_back(x); MC_CHECK(g.size() < 40, "%s does not end", what); } MC_CHECK(g == e, "range(%d,%d,%d): %s gives other elements", a, b, s, what); state(hash_str(what) + g.size()); };
	eq(r, w, "iteration"); eq(r.reversed(), {w.rbegin(), w.rend()}, "reversed"); std::vector<int> t, f, dr; for (int x : w) { t.push_back(2 * x); if (x % 2) f.push_back(x); } if (w.size() > 2) dr.assign(w.begin() + 2, w.end());
	eq(r | std::views::transform([](int x) { return 2 * x; }), t, "transform"); eq(r | std::views::filter([](int x) { return x % 2 != 0; }), f, "filter"); eq(r | std::views::drop(2), dr, "drop"); eq(r | std::views::take(2), {w.begin(), w.begin() + (long) std::min<size_t>(2, w.size())}, "take");
	eq(r.reversed() | std::views::take(2), {w.rbegin(), w.rbegin() + (long) std::min<size_t>(2, w.size())}, "reversed and take");
}
int main(int argc, char **argv) {
	std::vector<scenario> v; int const B = 16, d = THOROUGH ? 4 : 3;
#define ALL8(N, T, S) for (int k = 0; k < B; ++k) v.push_back({N "," + std::to_string(k), [=] { op("all triples of block %d", k); all8<T, S>(k, B); }})
	ALL8("i8,i8", int8_t, int8_t); ALL8("u8,u8", uint8_t, uint8_t); ALL8("u8,i8", uint8_t, int8_t); ALL8("u8,int", uint8_t, int); ALL8("i8,u8", int8_t, uint8_t);
	v.push_back({"edge,int", [] { edge<int, int>(); }}); v.push_back({"edge,unsigned", [] { edge<unsigned, unsigned>(); }}); v.push_back({"edge,unsigned,int", [] { edge<unsigned, int>(); }}); v.push_back({"edge,i16", [] { edge<int16_t, int16_t>(); }}); v.push_back({"edge,u16,i8", [] { edge<uint16_t, int8_t>(); }});
	v.push_back({"edge,i64", [] { edge<int64_t, int64_t>(); }}); v.push_back({"edge,u64", [] { edge<uint64_t, uint64_t>(); }}); v.push_back({"edge,size_t,int", [] { edge<size_t, int>(); }}); v.push_back({"edge,u64,i64", [] { edge<uint64_t, int64_t>(); }}); v.push_back({"edge,int,i64", [] { edge<int, int64_t>(); }}); v.push_back({"edge,i64,u64", [] { edge<int64_t, uint64_t>(); }});
#define MIX(N, T, S, ...) { std::vector<scenario> in{{"mixed," N, [=] { mixed<T, S>(d, bounds<T>(), {__VA_ARGS__}); }}}; for (auto &s : split(in, 1)) v.push_back(s); }
	MIX("i8", int8_t, int8_t, 1, -1, 2, -2, 3, -3, 7, -7, 100, 127, -128); MIX("u8", uint8_t, uint8_t, 1, 2, 3, 7, 100, 255); MIX("u8,i8", uint8_t, int8_t, 1, -1, 2, -2, 3, -3, 100, 127, -128);
	MIX("int", int, int, 1, -1, 2, -3, 1000, INT_MAX, INT_MIN); MIX("u64,int", uint64_t, int, 1, -1, 2, -3, INT_MAX, INT_MIN); MIX("i64", int64_t, int64_t, 1, -2, 3, INT64_MAX, INT64_MIN);
	v.push_back({"other", [] { others(); }}); v.push_back({"pipes", [] { pipes(); }});
	return run(argc, argv, v);
}
