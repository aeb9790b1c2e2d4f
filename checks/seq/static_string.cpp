// basic_static_string: every sequence of constructions, assignments, swaps and writes over three strings.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/static_string.hpp>
#include <boost/interprocess/offset_ptr.hpp>
#include <compare>
#include <optional>
#include <sstream>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
static int live_blocks;
struct hdr { int id; size_t n, esz, pad; };
template<typename T, bool PC, bool PM, bool EQ, bool FANCY>
struct al {
	using value_type = T;
	using pointer = std::conditional_t<FANCY, boost::interprocess::offset_ptr<T>, T *>;
	using propagate_on_container_copy_assignment = std::bool_constant<PC>;
	using propagate_on_container_move_assignment = std::bool_constant<PM>;
	using propagate_on_container_swap = std::true_type;
	using is_always_equal = std::bool_constant<EQ>;
	template<typename U> struct rebind { using other = al<U, PC, PM, EQ, FANCY>; };
	int id = 0;
	al() = default;
	explicit al(int i) : id(i) {}
	template<typename U> al(al<U, PC, PM, EQ, FANCY> const &o) : id(o.id) {}
	pointer allocate(size_t n) {
		MC_CHECK(n > 0 && n < 100, "allocates %zu characters", n);
		if (fault("allocation fails")) throw std::bad_alloc{};
		auto *h = static_cast<hdr *>(std::malloc(sizeof(hdr) + n * sizeof(T) + 16)); *h = {id, n, sizeof(T), 0}; std::memset(h + 1, 0xA5, n * sizeof(T) + 16); ++live_blocks; return pointer(reinterpret_cast<T *>(h + 1));
	}
	void deallocate(pointer p, size_t n) {
		hdr *h = reinterpret_cast<hdr *>(std::to_address(p)) - 1;
		MC_CHECK(EQ || h->id == id, "memory from allocator %d is released to allocator %d", h->id, id);
		MC_CHECK(h->n == n && h->esz == sizeof(T), "a block of %zu characters is released as %zu characters", h->n, n);
		auto *e = reinterpret_cast<unsigned char *>(h + 1) + n * sizeof(T); for (int i = 0; i < 16; ++i) MC_CHECK(e[i] == 0xA5, "written past the end of the text");
		h->id = -1; h->n = (size_t) -1; --live_blocks; std::free(h);
	}
	bool operator==(al const &o) const noexcept { return EQ || id == o.id; }
};
// texts: every character has a distinct value in its most significant byte, with an embedded NUL; texts are prefixes of or equal to each other
template<typename C> static std::basic_string<C> text(int k) {
	auto ch = [](unsigned i) { return (C) ((u64) (i % 96 + 17) | (sizeof(C) > 1 ? (u64) (i % 96 + 33) << (8 * (sizeof(C) - 1)) : 0)); };
	std::basic_string<C> s;
	switch (k) { case 0: break; case 1: s = {ch(1)}; break; case 2: s = {ch(1), (C) 0, ch(3)}; break; case 3: s = {ch(1), (C) 0, ch(4)}; break; default: for (unsigned i = 0; i < 21; ++i) s.push_back(i == 1 ? (C) 0 : ch(200 - i)); }
	return s;
}
template<typename C, typename A> struct H {
	using S = dtl::basic_static_string<C, std::char_traits<C>, A>; using R = std::basic_string<C>; using V = std::basic_string_view<C>;
	static_assert(std::is_nothrow_move_constructible_v<S> && std::is_convertible_v<S const &, V>);
	static void verify(size_t i, S const &s, R const &r) {
		MC_CHECK(s.size() == r.size() && s.empty() == r.empty(), "#%zu has size %zu, expected %zu", i, s.size(), r.size());
		V v = s; MC_CHECK(v == V(r), "#%zu holds the wrong text", i);
		MC_CHECK((size_t) (s.end() - s.begin()) == r.size() && std::equal(s.begin(), s.end(), r.begin()) && (size_t) (s.cend() - s.cbegin()) == r.size() && std::equal(s.cbegin(), s.cend(), r.begin()), "#%zu iterates wrongly", i);
		MC_CHECK((size_t) (s.rend() - s.rbegin()) == r.size() && std::equal(s.rbegin(), s.rend(), r.rbegin()) && (size_t) (s.crend() - s.crbegin()) == r.size() && std::equal(s.crbegin(), s.crend(), r.rbegin()), "#%zu iterates backwards wrongly", i);
		if (!r.empty()) MC_CHECK(s.front() == r.front() && s.back() == r.back() && std::to_address(s.data()) == s.begin() && v.data() == s.begin(), "#%zu: front/back/data wrong", i);
		for (size_t k = 0; k < r.size(); ++k) MC_CHECK(s[k] == r[k], "#%zu[%zu] wrong", i, k);
		S &m = const_cast<S &>(s);
		for (size_t k = 0; k < r.size(); ++k) MC_CHECK(&m[k] == m.begin() + k && m.begin() == s.begin(), "#%zu: element %zu is not where iteration finds it", i, k);
		if (!r.empty()) MC_CHECK(&m.front() == m.begin() && &m.back() == m.end() - 1 && &*m.rbegin() == m.end() - 1 && m.rend() - m.rbegin() == m.end() - m.begin() && std::to_address(m.data()) == m.begin(), "#%zu: mutable access wrong", i);
		for (int k = 0; k < 5; ++k) { R t = text<C>(k); V tv = t; MC_CHECK((s == tv) == (r == t) && (s != tv) == (r != t) && (s < tv) == (r < t) && (s > tv) == (r > t) && (s <= tv) == (r <= t) && (tv < s) == (t < r) && (tv == s) == (t == r) && (s <=> tv) == (r <=> t), "#%zu compares wrongly with text %d", i, k); }
	}
	static void body(int depth) {
		live_blocks = 0; int faults = E.faults_left; E.faults_left = 0;
		{
			std::vector<std::optional<S>> s(3); std::vector<R> r(3);
			auto check = [&] {
				u64 h = 3; for (size_t i = 0; i < 3; ++i) { verify(i, *s[i], r[i]); for (C c : r[i]) h = mix(h, (u64) c); h = mix(h, 77); } state(h);
				for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) {
					S const &a = *s[i], &b = *s[j]; R const &x = r[i], &y = r[j];
					MC_CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y) && (a <=> b) == (x <=> y), "#%zu and #%zu compare wrongly", i, j);
				}
			};
			// any text of the live strings a failed operation may leave the target with
			auto resync = [&](size_t j) { V v = *s[j]; r[j] = R(v); verify(j, *s[j], r[j]); };
			s[0].emplace(A(1)); s[1].emplace(V(r[1] = text<C>(2)), A(1)); s[2].emplace(V(r[2] = text<C>(4)), A(2)); E.faults_left = faults; int f = faults;
			bool stop = false; auto bail = [&] { stop = true; };
			for (int d = 0; d < depth && !stop; ++d) {
				size_t i = (size_t) choose(3), j = i; int o = choose(8);
				if (o >= 1 && o <= 5) j = (size_t) choose(3);
				try {
					switch (o) {
						case 0: { int t = choose(5), a = choose(2) + 1; op("#%zu = string from text %d with allocator %d", i, t, a); R x = text<C>(t); R y = x; A aa(a); S n(V(x), aa); std::fill(x.begin(), x.end(), C{}); s[i].emplace(std::move(n)); r[i] = y; break; }
						case 1: if (i == j) { bail(); break; } op("#%zu copy-constructed from #%zu", j, i); { S n(*s[i]); verify(j, n, r[i]); s[j].emplace(std::move(n)); r[j] = r[i]; } break;
						case 2: if (i == j) { bail(); break; } op("#%zu move-constructed from #%zu", j, i); s[j].emplace(std::move(*s[i])); r[j] = r[i]; resync(i); break;
						case 3: op("#%zu = #%zu", j, i); *s[j] = *s[i]; r[j] = r[i]; break;
						case 4: if (i == j) { bail(); break; } op("#%zu = move(#%zu)", j, i); *s[j] = std::move(*s[i]); r[j] = r[i]; resync(i); break;
						case 5: op("swap #%zu #%zu", i, j); { using std::swap; swap(*s[i], *s[j]); std::swap(r[i], r[j]); } break;
						case 6: { if (r[i].empty()) { bail(); break; } int w = choose(5); op("write to #%zu, way %d", i, w); C c = (C) ((u64) 5 << (8 * (sizeof(C) - 1))); S &m = *s[i];
							switch (w) { case 0: m[r[i].size() / 2] = c; r[i][r[i].size() / 2] = c; break; case 1: m.front() = c; r[i].front() = c; break; case 2: m.back() = c; r[i].back() = c; break; case 3: *m.begin() = c; r[i].front() = c; break; case 4: *m.rbegin() = c; r[i].back() = c; break; } break; }
						case 7: if constexpr (requires(std::basic_ostream<C> &os, S const &x) { os << x; }) { op("print #%zu", i); std::basic_ostringstream<C> os; os << *s[i] << *s[(i + 1) % 3]; MC_CHECK(os.str() == r[i] + r[(i + 1) % 3], "#%zu prints wrongly", i); } else bail(); break;
					}
				} catch (std::bad_alloc const &) { MC_CHECK(E.faults_left < f, "an allocation error without reason"); f = E.faults_left; op("... failed"); if (o >= 1 && o <= 4) { V now = *s[j]; MC_CHECK(now.empty() || now == V(r[j]), "a failed assignment leaves garbage in #%zu", j); resync(j); } }
				if (!stop) check();
			}
		}
		MC_CHECK(live_blocks == 0, "%d blocks were never released", live_blocks);
	}
};
int main(int argc, char **argv) {
	int d = THOROUGH ? 4 : 3; std::vector<scenario> v;
#define DEP(C, PC, PM, EQ, F, D) v.push_back({#C ",copy" #PC ",move" #PM ",equal" #EQ ",fancy" #F, [=] { H<C, al<C, PC, PM, EQ, F>>::body(D); }, THOROUGH ? 2 : 1})
#define ONE(C, PC, PM, EQ, F) DEP(C, PC, PM, EQ, F, d - 1)
#define ALLC(PC, PM, EQ, F) DEP(char, PC, PM, EQ, F, d - 1 + (PC == PM && EQ + F == 0)); DEP(wchar_t, PC, PM, EQ, F, d - 1 + (PC != PM || EQ + F > 0))
	ALLC(0, 0, 0, 0); ALLC(1, 0, 0, 0); ALLC(0, 1, 0, 0); ALLC(1, 1, 0, 0); ALLC(0, 0, 1, 0); ALLC(1, 1, 1, 0); ALLC(0, 0, 0, 1); ALLC(1, 1, 0, 1);
	ONE(char8_t, 0, 0, 0, 0); ONE(char16_t, 0, 0, 0, 0); ONE(char32_t, 0, 0, 0, 0); ONE(char16_t, 1, 1, 0, 0);
	v.push_back({"std-allocator", [=] { struct std_al : std::allocator<char32_t> { using std::allocator<char32_t>::allocator; std_al(int) {} }; H<char32_t, std_al>::body(2); }});
	v = split(v); return run(argc, argv, v);
}
