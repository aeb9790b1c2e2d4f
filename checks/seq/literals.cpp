// Integer literal suffixes and the utility macros: every 16-bit value and every boundary value through every suffix; every use of the macros.
#include <dice/template-library/stdint.hpp>
#include <dice/template-library/macro_util.hpp>
#include "../../engine/mcseq.hpp"
#include <limits>
#include <string_view>
namespace dtl = dice::template_library;
using namespace dtl::literals;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
#ifndef PART
#define PART 0
#endif
static std::vector<unsigned long long> values() { std::vector<unsigned long long> v; for (unsigned long long i = 0; i < (THOROUGH ? 1ull << 24 : 1ull << 16); ++i) v.push_back(i);
	for (int b = 0; b < 64; ++b) for (long long d = -300; d <= 300; ++d) v.push_back((1ull << b) + (unsigned long long) d); for (int a = 0; a < 64; ++a) for (int b = 0; b <= a; ++b) { v.push_back((1ull << a) | (1ull << b)); v.push_back(~((1ull << a) | (1ull << b))); } return v; }
// the low bits of v as a value of a two's complement type of n bits, computed without a conversion to that type
static __int128 expect(unsigned long long v, int bits, bool sgn) { unsigned __int128 m = (unsigned __int128) 1 << bits; __int128 r = (__int128) ((unsigned __int128) v % m); if (sgn && r >= (__int128) (m / 2)) r -= (__int128) m; return r; }
template<typename T, typename F> static void suffix(char const *name, F f) {
	MC_CHECK((std::is_same_v<decltype(f(0ull)), T>), "the literals of suffix %s have another type than the one they name", name);
	MC_CHECK(noexcept(f(0ull)), "suffix %s", name);
	for (auto v : values()) { T r = f(v); MC_CHECK((__int128) r == expect(v, sizeof(T) * 8, std::is_signed_v<T>), "%llu%s is %lld", v, name, (long long) r); ++E.transitions; }
}
#define SUFFIX(T, S) suffix<T>(#S, [](unsigned long long v) noexcept { return operator"" S(v); })
// literals as they are written: bases, separators, the largest values, constant expressions and template arguments
template<auto v> struct constant { using type = decltype(v); static constexpr auto value = v; };
#define LIT(l, T, v) MC_CHECK((std::is_same_v<constant<l>::type, T>) && constant<l>::value == (v), "%s", #l); ++E.transitions
#define LITS(T, S) LIT(0##S, T, (T) 0); LIT(0x7f##S, T, (T) 127); LIT(0b1'01##S, T, (T) 5); LIT(017##S, T, (T) 15); LIT(1'00##S, T, (T) 100)
static void written() {
	LITS(uint8_t, _u8); LITS(int8_t, _i8); LITS(uint16_t, _u16); LITS(int16_t, _i16); LITS(uint32_t, _u32); LITS(int32_t, _i32); LITS(uint64_t, _u64); LITS(int64_t, _i64); LITS(size_t, _usize); LITS(ptrdiff_t, _isize); LITS(uintptr_t, _uptr); LITS(intptr_t, _iptr);
	LIT(255_u8, uint8_t, 255); LIT(65535_u16, uint16_t, 65535); LIT(0xffff'ffff_u32, uint32_t, 4294967295u); LIT(18446744073709551615_u64, uint64_t, ~0ull); LIT(0xffffffffffffffff_usize, size_t, ~0ull); LIT(0xffff'ffff'ffff'ffff_uptr, uintptr_t, ~0ull);
	LIT(127_i8, int8_t, 127); LIT(32767_i16, int16_t, 32767); LIT(2147483647_i32, int32_t, 2147483647); LIT(9223372036854775807_i64, int64_t, 9223372036854775807ll); LIT(9223372036854775807_isize, ptrdiff_t, 9223372036854775807ll); LIT(9223372036854775807_iptr, intptr_t, 9223372036854775807ll);
	MC_CHECK((std::is_same_v<decltype(-1_i32), int32_t>) && -1_i32 == -1 && (std::is_same_v<decltype(-1_i64), int64_t>) && -9223372036854775807_i64 - 1 == std::numeric_limits<int64_t>::min(), "negated literals");
}
// identifiers: the arguments are expanded first, also when they are macros of macros or __LINE__ / __COUNTER__
#define LEFT_ le
#define RIGHT_ RIGHT2_
#define RIGHT2_ ft
#define THIRD_ 3
#define DICE_IDENT_CONCAT_TARGET left
static void idents() {
	int left = 1, left3 = 2, le3 = 3, xy = 4, x_ = 5;
	MC_CHECK(&DICE_IDENT_CONCAT(LEFT_, RIGHT_) == &left && &DICE_IDENT_CONCAT(DICE_IDENT_CONCAT_TARGET, THIRD_) == &left3 && &DICE_IDENT_CONCAT(LEFT_, THIRD_) == &le3 && &DICE_IDENT_CONCAT(x, y) == &xy && &DICE_IDENT_CONCAT(x, _) == &x_, "the concatenation names another identifier");
	int DICE_IDENT_CONCAT(a, __LINE__) = 7, DICE_IDENT_CONCAT(b, __COUNTER__) = 8, DICE_IDENT_CONCAT(b, __COUNTER__) = 9;
	int s = DICE_IDENT_CONCAT(1, 2) + DICE_IDENT_CONCAT(THIRD_, 4); MC_CHECK(s == 46, "numbers"); E.transitions += 8;
	MC_CHECK(left + left3 + le3 + xy + x_ == 15, "values");
#line 4242
	int DICE_IDENT_CONCAT(at_, __LINE__) = 11; MC_CHECK(at_4242 == 11, "__LINE__ was not expanded");
}
static void builtins() {
	MC_CHECK(DICE_COMPILER_HAS_BUILTIN(__builtin_expect) && DICE_COMPILER_HAS_BUILTIN(__builtin_memcpy), "a builtin of this compiler is not found");
	MC_CHECK(!DICE_COMPILER_HAS_BUILTIN(__builtin_no_such_thing) && !DICE_COMPILER_HAS_BUILTIN(printf_), "a builtin that does not exist is found");
#if DICE_COMPILER_HAS_BUILTIN(__builtin_expect) && !DICE_COMPILER_HAS_BUILTIN(__builtin_no_such_thing)
	++E.transitions;
#else
	fail("the builtin test is wrong in a preprocessor condition");
#endif
	MC_CHECK(std::string_view{DICE_FILENAME} == "literals.cpp" || std::string_view{DICE_FILENAME} == __FILE__, "DICE_FILENAME is %s", DICE_FILENAME);
	static constexpr auto n = std::string_view{DICE_FILENAME}; MC_CHECK(n.ends_with("literals.cpp") && (sizeof("" DICE_FILENAME) == n.size() + 1), "DICE_FILENAME is a string literal");
}
// leaks: with a leak checker every call forwards its pointer once, without one every call does nothing
static std::vector<void const *> told;
#if PART == 0
extern "C" void __lsan_ignore_object(void const *p) { told.push_back(p); }
#endif
static void leaks() {
	static_assert(noexcept(dtl::ignore_leak(nullptr)));
	int objs[3] = {}; struct poly { virtual ~poly() = default; } p; void const *ptrs[] = {&objs[0], &objs[1], &objs[2], &p, nullptr};
	for (int n = 0; n <= (THOROUGH ? 5 : 4); ++n) { int tot = 1; for (int i = 0; i < n; ++i) tot *= 10; for (int c = 0; c < tot; ++c) {
		told.clear(); std::vector<void const *> want; objs[0] = objs[1] = objs[2] = 77; int evals = 0;
		for (int i = 0, k = c; i < n; ++i, k /= 10) { void const *q = ptrs[k % 10 % 5]; want.push_back(q); op("%s(%d)", k % 10 >= 5 ? "DICE_IGNORE_LEAK" : "ignore_leak", k % 10 % 5);
			if (k % 10 < 5) dtl::ignore_leak((++evals, q));
			else {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
				if (evals >= 0) DICE_IGNORE_LEAK((++evals, q)); else fail("not taken");
#pragma GCC diagnostic pop
			} ++E.transitions; }
		MC_CHECK(evals == n, "an argument was evaluated %d times in %d calls", evals, n); MC_CHECK(objs[0] == 77 && objs[1] == 77 && objs[2] == 77, "an ignored object was written");
		if (PART) want.clear(); MC_CHECK(told == want, "the leak checker was told of %zu objects instead of %zu, or of others", told.size(), want.size()); state((unsigned) c * 8u + (unsigned) n); } }
}
int main(int argc, char **argv) {
	std::vector<scenario> v;
	if (PART == 0) {
		v.push_back({"suffixes", [] { op("suffixes"); SUFFIX(uint8_t, _u8); SUFFIX(int8_t, _i8); SUFFIX(uint16_t, _u16); SUFFIX(int16_t, _i16); SUFFIX(uint32_t, _u32); SUFFIX(int32_t, _i32); SUFFIX(uint64_t, _u64); SUFFIX(int64_t, _i64); SUFFIX(size_t, _usize); SUFFIX(ptrdiff_t, _isize); SUFFIX(uintptr_t, _uptr); SUFFIX(intptr_t, _iptr); }});
		v.push_back({"written", [] { op("written"); written(); }}); v.push_back({"idents", [] { op("identifiers"); idents(); }}); v.push_back({"builtins", [] { op("builtins"); builtins(); }});
	}
	v.push_back({PART ? "leaks without a leak checker" : "leaks", [] { leaks(); }});
	return run(argc, argv, v);
}
