// make_integer_sequence, make_index_sequence, make_integral_constant_list and the loops over them: all pairs of bounds.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/integral_sequence.hpp>
#include <dice/template-library/for.hpp>
#include <array>
#include <limits>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef PART
#define PART 0
#endif
using wide = __int128;
template<typename T> constexpr T tmin = std::numeric_limits<T>::min();
template<typename T> constexpr T tmax = std::numeric_limits<T>::max();
template<typename T, T... xs> static std::vector<wide> list(std::integer_sequence<T, xs...>) { return {(wide) xs...}; }
template<typename S> struct value_type; template<typename T, T... xs> struct value_type<std::integer_sequence<T, xs...>> { using type = T; };
template<typename T, typename... Cs> static std::vector<wide> constants(dtl::type_list::type_list<Cs...>) { static_assert((std::is_same_v<Cs, std::integral_constant<T, Cs::value>> && ...)); return {(wide) Cs::value...}; }
template<typename T, T first, T last> static void pair_check() {
	++E.transitions; ++E.beat;
	std::vector<wide> want; if (first < last) for (wide v = first; v < (wide) last; ++v) want.push_back(v); else for (wide v = first; v > (wide) last; --v) want.push_back(v);
	using S = dtl::make_integer_sequence<T, first, last>; static_assert(std::is_same_v<typename value_type<S>::type, T>);
	auto eq = [&](char const *what, std::vector<wide> const &got) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; MC_CHECK(got == want, "%s of (%lld, %lld): %zu integers, %zu expected; first difference at %zu", what, (long long) first, (long long) last, got.size(), want.size(), i); };
	eq("make_integer_sequence", list(S{}));
	constexpr wide span = (wide) first - (wide) last;
	if constexpr (span <= 40 && span >= -40) {
	eq("make_integral_constant_list", constants<T>(dtl::make_integral_constant_list<T, first, last>{}));
	if constexpr (std::is_same_v<T, size_t>) { static_assert(std::is_same_v<typename value_type<dtl::make_index_sequence<first, last>>::type, size_t>); eq("make_index_sequence", list(dtl::make_index_sequence<first, last>{})); }
	std::vector<wide> got; dtl::for_range<first, last>([&](auto c) { static_assert(std::is_same_v<typename decltype(c)::value_type, T>); got.push_back((wide) c.value); }); eq("for_range", got);
	}
}
using fn = void (*)();
template<typename T, T... bs> struct bounds {
	static constexpr std::array<T, sizeof...(bs)> b{bs...}; static constexpr size_t n = sizeof...(bs);
	static void run_() {
		static constexpr auto t = []<size_t... I>(std::index_sequence<I...>) { return std::array<fn, n * n>{[] { constexpr wide d = (wide) b[I / n] - (wide) b[I % n]; if constexpr (d <= 260 && d >= -260) return (fn) &pair_check<T, b[I / n], b[I % n]>; else return (fn) nullptr; }()...}; }(std::make_index_sequence<n * n>{});
		size_t i = (size_t) choose(n * n); op("bounds (%lld, %lld)", (long long) b[i / n], (long long) b[i % n]); state(i); observe(i); if (t[i]) t[i]();
	}
};
template<typename T, long lo, size_t... I> static auto grid_(std::index_sequence<I...>) { return &bounds<T, (T) (lo + (long) I)...>::run_; }
template<typename T, long lo, size_t n> static std::function<void()> grid() { return grid_<T, lo>(std::make_index_sequence<n>{}); }
int main(int argc, char **argv) {
	std::vector<scenario> s;
#if PART == 0
	s.push_back({"int,-8..8", grid<int, -8, 17>()});
#elif PART == 1
	s.push_back({"i8,limits", bounds<signed char, -128, -127, -126, -100, -2, -1, 0, 1, 100, 126, 127>::run_});
#elif PART == 2
	s.push_back({"u8,limits", bounds<unsigned char, 0, 1, 2, 100, 127, 128, 129, 200, 253, 254, 255>::run_});
#elif PART == 3
	s.push_back({"u64,0..13", grid<size_t, 0, 14>()}); s.push_back({"u64,limits", bounds<size_t, 0, 1, tmax<size_t>, tmax<size_t> - 1, tmax<size_t> - 5, tmax<size_t> / 2, tmax<size_t> / 2 + 1, tmax<size_t> / 2 + 4, 0xffffffff, 0x100000000, 0x100000003>::run_});
	s.push_back({"i64,limits", bounds<std::int64_t, tmin<std::int64_t>, tmin<std::int64_t> + 1, tmin<std::int64_t> + 9, -0x80000001l, -0x80000000l, -1, 0, 4, 0x7fffffff, 0x80000000, 0x80000003, tmax<std::int64_t> - 6, tmax<std::int64_t> - 1, tmax<std::int64_t>>::run_});
#elif PART == 4
	s.push_back({"int,limits", bounds<int, tmin<int>, tmin<int> + 1, tmin<int> + 9, -200, -1, 0, 50, tmax<int> - 6, tmax<int> - 1, tmax<int>>::run_}); s.push_back({"unsigned,limits", bounds<unsigned, 0, 1, 5, 250, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000002, 0xfffffffe, 0xffffffff>::run_});
	s.push_back({"i16,limits", bounds<short, -32768, -32767, -32700, -129, -128, -1, 0, 1, 127, 128, 130, 255, 256, 32700, 32766, 32767>::run_}); s.push_back({"u16,limits", bounds<unsigned short, 0, 1, 255, 256, 32767, 32768, 32900, 65300, 65534, 65535>::run_});
	s.push_back({"bool", bounds<bool, false, true>::run_}); s.push_back({"char", bounds<char, 0, 1, 'a', 'c', 126, 127>::run_}); s.push_back({"wchar_t", bounds<wchar_t, 0, 3, L'x', L'z'>::run_}); s.push_back({"char8_t", bounds<char8_t, 0, 3, 254, 255>::run_}); s.push_back({"char32_t", bounds<char32_t, 0, 3, 0xfffffffe, 0xffffffff>::run_}); s.push_back({"long long", bounds<long long, -5, -4, 0, 5>::run_});
#endif
	return run(argc, argv, s);
}
