// ipow: all 8-bit arguments, all 16-bit bases, boundary values of wider types, against exact arithmetic.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/ipow.hpp>
#include <limits>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
using wide = __int128;
static std::string str(wide v) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128) v : (unsigned __int128) v; std::string s; do { s += (char) ('0' + (int) (u % 10)); u /= 10; } while (u); if (n) s += '-'; return {s.rbegin(), s.rend()}; }
enum kind { value, over, under };
struct result { kind k; wide v; };
// the definition; e may be negative: truncated towards zero
template<typename T> static result exact(wide b, wide e) {
	wide const lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
	if (e < 0) { if (b == 1) return {value, 1}; if (b == -1) return {value, e % 2 != 0 ? -1 : 1}; return {value, 0}; }
	if (e == 0) return {value, 1};
	if (b == 0 || b == 1) return {value, b};
	if (b == -1) return {value, e % 2 != 0 ? -1 : 1};
	wide r = 1; for (wide i = 0; i < e; ++i) { if (__builtin_mul_overflow(r, b, &r)) r = (b < 0 && i % 2 == 0) ? lo - 1 : hi + 1; if (r > hi || r < lo) { bool neg = b < 0 && e % 2 != 0; // exceeds in magnitude; one more factor may still fit only never, as |b| >= 2
			wide m = r < 0 ? -r : r; if (i + 1 == e) return {r > hi ? over : under, r}; (void) m; return {neg ? under : over, 0}; } }
	return {value, r};
}
template<typename B, typename X> static void one(B b, X e) {
	result w = exact<B>((wide) b, (wide) e); result g; static_assert(std::is_same_v<decltype(dtl::ipow(b, e)), B>);
	try { g = {value, (wide) dtl::ipow(b, e)}; } catch (std::overflow_error const &) { g = {over, 0}; } catch (std::underflow_error const &) { g = {under, 0}; }
	MC_CHECK(g.k == w.k && (g.k != value || g.v == w.v), "ipow(%s, %s): %s, expected %s", str((wide) b).c_str(), str((wide) e).c_str(), g.k == value ? str(g.v).c_str() : g.k == over ? "overflow" : "underflow", w.k == value ? str(w.v).c_str() : w.k == over ? "overflow" : "underflow");
	++E.transitions; ++E.beat; if ((E.transitions & 255) == 0) state(mix((u64) b, (u64) e));
}
template<typename B, typename X> static void all8() { for (int b = std::numeric_limits<B>::min(); b <= std::numeric_limits<B>::max(); ++b) for (int e = std::numeric_limits<X>::min(); e <= std::numeric_limits<X>::max(); ++e) one<B, X>((B) b, (X) e); }
template<typename B> static void all16() { for (int b = std::numeric_limits<B>::min(); b <= std::numeric_limits<B>::max(); ++b) { for (int e = -3; e <= 17; ++e) one<B, int>((B) b, e); one<B, unsigned char>((B) b, 200); } }
template<typename T> static std::vector<T> bounds() {
	std::vector<T> v; using L = std::numeric_limits<T>; wide lo = L::min(), hi = L::max();
	auto add = [&](wide x) { if (x >= lo && x <= hi) v.push_back((T) x); };
	for (int k = 0; k < 6; ++k) { add(lo + k); add(hi - k); } for (int k = -20; k <= 20; ++k) add(k);
	// around every integer root of the maximum and the minimum
	for (int n = 2; n < (int) sizeof(T) * 8 + 2; ++n) { wide a = 1, b = hi; while (a < b) { wide m = a + (b - a + 1) / 2; wide r = 1; bool big = false; for (int i = 0; i < n && !big; ++i) { if (r > hi / m) big = true; else r *= m; } if (big) b = m - 1; else a = m; } for (int d = -2; d <= 2; ++d) { add(a + d); add(-a - d); } }
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
template<typename B, typename X> static void edge() { for (B b : bounds<B>()) { for (int e = -5; e <= 140; ++e) if (e >= 0 || std::is_signed_v<X>) one<B, X>(b, (X) e); if (b == 0 || b == 1 || b == (B) -1) continue; } for (X e : bounds<X>()) for (int b = -3; b <= 3; ++b) if (b >= 0 || std::is_signed_v<B>) one<B, X>((B) b, e); }
static_assert(dtl::ipow(2, 10) == 1024 && dtl::ipow(-3, 3) == -27 && dtl::ipow((unsigned char) 2, 7u) == 128 && dtl::ipow((signed char) -2, 7) == -128 && dtl::ipow(7ull, 0) == 1 && dtl::ipow(-2LL, 63) == std::numeric_limits<long long>::min());
int main(int argc, char **argv) {
	std::vector<scenario> v;
#define S(F, ...) v.push_back({#F "<" #__VA_ARGS__ ">", [] { op("%s", #F "<" #__VA_ARGS__ ">"); F<__VA_ARGS__>(); }})
	S(all8, int8_t, int8_t); S(all8, uint8_t, int8_t); S(all8, int8_t, uint8_t); S(all8, uint8_t, uint8_t); S(all8, char, char);
	S(all16, int16_t); S(all16, uint16_t); S(all16, char16_t); S(all16, short);
	S(edge, int, int); S(edge, unsigned, int); S(edge, int, unsigned); S(edge, long, int); S(edge, unsigned long, unsigned); S(edge, long long, long long); S(edge, unsigned long long, short); S(edge, wchar_t, unsigned long); S(edge, char32_t, int); S(edge, int16_t, uint64_t);
	return run(argc, argv, v);
}
