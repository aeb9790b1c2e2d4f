// pointer_tag_pair: every sequence of operations on pairs of every kind of pointee, against (pointer, tag).
#include "../../engine/mcseq.hpp"
#include <concepts>
#include <dice/template-library/pointer_tag_pair.hpp>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
struct alignas(1) A1 { char c; }; struct alignas(16) A16 { char c[16]; }; struct alignas(64) A64 { int x; };
struct base1 { uint64_t a = 1; virtual ~base1() = default; }; struct base2 { uint64_t b = 2; }; struct empty_base {}; struct derived : base1, base2, empty_base { uint64_t d = 3; }; struct vbase : virtual base2 { uint64_t v = 4; };
struct alignas(32) wide_base { uint64_t w = 5; }; struct two : base1, wide_base {};
struct incomplete;
enum struct E8 : uint8_t { z = 0, a = 1, b = 3, c = 7, d = 255 }; enum U16 : uint16_t { u0 = 0, u1 = 5, u2 = 0xFFF };
alignas(4096) static unsigned char arena[4096 * 4];
template<typename T> static uintptr_t raw(T *p) { return reinterpret_cast<uintptr_t>(p); }
// pairs of a T and a tag: values reachable through every constructor, and every sequence of operations on three of them
template<typename T, typename Tag, unsigned Bits, bool OVER> static void pairs(int depth) {
	using P = dtl::pointer_tag_pair<T, Tag, Bits>; static_assert(sizeof(P) == sizeof(void *) && std::is_trivially_copyable_v<P> && P::bits_requested == Bits && std::is_same_v<typename P::pointer_type, T *> && std::is_same_v<typename P::tag_type, Tag>);
	static_assert(std::tuple_size_v<P> == 2 && std::tuple_size_v<P const> == 2 && std::is_same_v<std::tuple_element_t<0, P>, T *> && std::is_same_v<std::tuple_element_t<1, P const>, Tag>);
	uintptr_t const tagmax = std::min<uintptr_t>(((uintptr_t) 1 << Bits) - 1, (uintptr_t) static_cast<Tag>(~(uintptr_t) 0)); size_t const al = (size_t) 1 << Bits; size_t const step = std::is_void_v<T> ? al : std::max(al, [] { if constexpr (std::is_void_v<T> || !requires { sizeof(T); }) return (size_t) 1; else return alignof(T); }());
	std::vector<uintptr_t> ptrs{0, raw(arena), raw(arena) + step, raw(arena) + 3 * step}; std::vector<uintptr_t> tags; for (uintptr_t t = 0; t <= std::min<uintptr_t>(tagmax, 16); ++t) tags.push_back(t); if (tagmax > 16) { tags.push_back(tagmax); tags.push_back(tagmax - 1); tags.push_back(tagmax / 2 + 1); }
	auto ptr = [](uintptr_t v) { return reinterpret_cast<T *>(v); };
	struct m { uintptr_t p = 0, t = 0; bool operator==(m const &) const = default; }; P v[3]; m w[3];
	auto check = [&](P const &x, m const &e, char const *what) {
		MC_CHECK(x.pointer() == ptr(e.p), "%s: pointer() is %#lx, expected %#lx (tag %#lx)", what, raw(x.pointer()), e.p, e.t); MC_CHECK((uintptr_t) x.tag() == e.t, "%s: tag() is %#lx, expected %#lx (pointer %#lx)", what, (uintptr_t) x.tag(), e.t, e.p);
		MC_CHECK(dtl::get<0>(x) == ptr(e.p) && (uintptr_t) dtl::get<1>(x) == e.t, "%s: get<> differs", what); auto [bp, bt] = x; MC_CHECK(bp == ptr(e.p) && (uintptr_t) bt == e.t, "%s: structured binding differs", what);
		P r = P::from_tagged(x.tagged_pointer()); MC_CHECK(r.pointer() == ptr(e.p) && (uintptr_t) r.tag() == e.t && r == x, "%s: raw round trip differs", what); MC_CHECK((raw(x.tagged_pointer()) & ~(al - 1)) == e.p && (raw(x.tagged_pointer()) & (al - 1)) == e.t, "%s: tagged_pointer()", what);
	};
	for (auto &x : v) check(x, {}, "default constructed");
	for (int d = 0; d < depth; ++d) {
		int o = choose(6), i = choose(3);
		if (o == 0) { uintptr_t p = ptrs[(size_t) choose((int) ptrs.size())], t = tags[(size_t) choose((int) tags.size())]; op("v%d = (%#lx, %lu)", i, p ? p - raw(arena) + 1 : 0, t);
			if constexpr (OVER) v[i] = P::template from_overaligned<(1u << Bits)>(ptr(p), static_cast<Tag>(t)); else v[i] = P{ptr(p), static_cast<Tag>(t)}; w[i] = {p, t}; }
		else if (o == 1) { uintptr_t t = tags[(size_t) choose((int) tags.size() + 1) % tags.size()]; op("v%d = (nullptr, %lu)", i, t); v[i] = P{nullptr, static_cast<Tag>(t)}; w[i] = {0, t}; }
		else if (o == 2) { int j = choose(3); op("v%d = v%d", i, j); v[i] = v[j]; w[i] = w[j]; }
		else if (o == 3) { int j = choose(3); op("swap(v%d, v%d)", i, j); using std::swap; swap(v[i], v[j]); std::swap(w[i], w[j]); }
		else if (o == 4) { op("v%d = {}", i); v[i] = P{}; w[i] = {}; P n{nullptr}; check(n, {}, "from nullptr"); }
		else { op("v%d with its tag replaced", i); uintptr_t t = tags[(size_t) choose((int) tags.size())]; P c(v[i]); v[i] = P::from_tagged(reinterpret_cast<typename P::tagged_pointer_type>((raw(c.tagged_pointer()) & ~(al - 1)) | t)); w[i].t = t; }
		for (int k = 0; k < 3; ++k) check(v[k], w[k], "after the operation");
		for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { bool eq = w[a] == w[b]; MC_CHECK((v[a] == v[b]) == eq && (v[a] != v[b]) == !eq && ((v[a] <=> v[b]) == 0) == eq, "equality of v%d and v%d", a, b); auto c = v[a] <=> v[b]; bool lt = w[a].p != w[b].p ? w[a].p < w[b].p : w[a].t < w[b].t; MC_CHECK((c < 0) == lt && (v[a] < v[b]) == lt && (v[b] > v[a]) == lt && (v[a] >= v[b]) == !lt, "ordering of v%d and v%d", a, b); }
		state(mix(mix(w[0].p, w[0].t), mix(w[1].p * 3 + w[1].t, w[2].p * 7 + w[2].t)));
	}
	observe(w[0].p + w[1].t);
}
// pointers of related types: what comes back is the pointer converted to T*
template<typename T, typename Tag, unsigned Bits, typename D> static void convert(char const *what, D *p) {
	for (uintptr_t t = 0; t < (1u << Bits); ++t) { T *want = p; dtl::pointer_tag_pair<T, Tag, Bits> x(p, static_cast<Tag>(t)); op("%s %lu", what, t); MC_CHECK(x.pointer() == want && (uintptr_t) x.tag() == t, "%s: pointer() is off by %ld bytes, tag %lu of %lu", what, (long) (raw(x.pointer()) - raw(want)), (uintptr_t) x.tag(), t); state(mix(hash_str(what), t));
		auto y = dtl::pointer_tag_pair<T, Tag, Bits>::template from_overaligned<(1u << Bits)>(p, static_cast<Tag>(t)); MC_CHECK(y == x && y.pointer() == want, "%s: from_overaligned differs", what);
		dtl::pointer_tag_pair<T, Tag, Bits> n(static_cast<D *>(nullptr), static_cast<Tag>(t)); MC_CHECK(n.pointer() == nullptr && (uintptr_t) n.tag() == t, "%s: null", what); }
}
static void conversions() {
	derived d; two t2; vbase vb; const derived cd; int i = 0;
	convert<base1, uint8_t, 3>("derived to first base", &d); convert<base2, uint8_t, 3>("derived to second base", &d); convert<base2 const, uint8_t, 2>("const derived to second base", &cd); convert<base1 const, unsigned, 3>("derived to const base", &d); convert<wide_base, uint8_t, 5>("to an over-aligned second base", &t2); convert<base1, uint8_t, 3>("first of two", &t2); convert<base2, uint8_t, 3>("to a virtual base", &vb); convert<int const, uint16_t, 2>("int to const int", &i); convert<void, uint8_t, 2>("int to void", &i); convert<void const, uint8_t, 3>("derived to const void", &d); convert<base2, uint8_t, 3>("second base to itself", static_cast<base2 *>(&d)); convert<int volatile, uint8_t, 1>("int to volatile", &i);
	{ dtl::pointer_tag_pair<base2, uint8_t> p(&d, 5); p.pointer()->b = 77; MC_CHECK(d.b == 77 && d.a == 1 && d.d == 3, "writing through the pointer reaches another object"); }
	using dtl::detail_pointer_tag_pair::taggable_bits_available; static_assert(taggable_bits_available<A1>() == 0 && taggable_bits_available<char>() == 0 && taggable_bits_available<uint16_t>() == 1 && taggable_bits_available<uint32_t>() == 2 && taggable_bits_available<uint64_t const>() == 3 && taggable_bits_available<A16>() == 4 && taggable_bits_available<A64>() == 6 && taggable_bits_available<void>() == 0 && taggable_bits_available<void, 4096>() == 12 && taggable_bits_available<char, 8>() == 3);
	static_assert(dtl::pointer_tag_pair<uint64_t, uint8_t>::bits_requested == 3 && dtl::pointer_tag_pair<A64, uint8_t>::bits_requested == 6 && !std::is_constructible_v<dtl::pointer_tag_pair<char, uint8_t, 1>, char *, uint8_t> && std::is_constructible_v<dtl::pointer_tag_pair<char, uint8_t, 1>, std::nullptr_t, uint8_t> && !std::is_constructible_v<dtl::pointer_tag_pair<uint32_t, uint8_t>, uint32_t const *, uint8_t> && !std::is_constructible_v<dtl::pointer_tag_pair<uint32_t, uint8_t>, uint64_t *, uint8_t>);
	static_assert([] { dtl::pointer_tag_pair<int, uint8_t> a{nullptr, 3}, b{nullptr, 1}; swap(a, b); return a.tag() == 1 && b.tag() == 3 && a < b && a != b; }());
	static_assert(std::is_same_v<dtl::pointer_tag_pair<int const, uint8_t>::tagged_pointer_type, void const *> && std::is_same_v<dtl::pointer_tag_pair<int, uint8_t>::tagged_pointer_type, void *>);
}
int main(int argc, char **argv) {
	std::vector<scenario> v; int const d = THOROUGH ? 4 : 3;
#define ONE(T, TAG, BITS, OVER, DEPTH) v.push_back({"pairs," #T "," #TAG "," #BITS, [=] { pairs<T, TAG, BITS, OVER>(DEPTH); }})
	ONE(uint64_t, uint8_t, 3, false, d); ONE(uint64_t const, unsigned, 2, false, d); ONE(uint32_t, E8, 2, false, d); ONE(char, uint8_t, 0, false, d); ONE(A64, uint64_t, 6, false, d - 1); ONE(A16, uint16_t, 4, false, d - 1); ONE(char, uint16_t, 12, true, d - 1); ONE(void, uint8_t, 5, true, d - 1); ONE(void const, U16, 12, true, d - 1); ONE(incomplete, uint8_t, 3, true, d); ONE(char, uint8_t, 12, true, d - 1); ONE(uint16_t volatile, uint8_t, 1, false, d); ONE(void *, uint8_t, 3, false, d - 1);
	v = split(v, 1); v.push_back({"conversions", [] { conversions(); }});
	return run(argc, argv, v);
}
