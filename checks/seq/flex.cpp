// flex_array: every sequence of operations over three arrays of each mode, conversions between modes, comparisons.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/flex_array.hpp>
#include <cmath>
#include <forward_list>
#include <iterator>
#include <limits>
#include <list>
#include <optional>
#include <ranges>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
// an element that owns memory: a shallow or missing copy shows
struct box {
	int *p;
	box() : p(new int(0)) { L.add(this, 1); }
	box(int v) : p(new int(v)) { L.add(this, 1); }
	box(box const &o) : p(new int(o.get())) { L.add(this, 1); }
	box(box &&o) noexcept : p(o.p) { L.use(&o, 1); o.p = nullptr; L.add(this, 1); }
	box &operator=(box const &o) { L.use(this, 1); L.use(&o, 1); if (this != &o) { int *n = o.p ? new int(*o.p) : nullptr; delete p; p = n; } return *this; }
	box &operator=(box &&o) noexcept { L.use(this, 1); L.use(&o, 1); if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
	~box() { L.del(this, 1); delete p; }
	int get() const { L.use(this, 1); return p ? *p : -1; }
	bool operator==(box const &o) const { return get() == o.get(); }
	auto operator<=>(box const &o) const { return get() <=> o.get(); }
};
static int val(int x) { return x; }
static int val(box const &b) { return b.get(); }
// an input iterator whose post-increment yields nothing, and a sentinel of another type (both allowed by std::input_iterator)
struct in_it {
	using value_type = int; using difference_type = std::ptrdiff_t; using iterator_concept = std::input_iterator_tag;
	int const *p = nullptr; int operator*() const { return *p; } in_it &operator++() { ++p; return *this; } void operator++(int) { ++p; }
};
struct in_end { int const *p; friend bool operator==(in_it const &i, in_end const &e) { return i.p == e.p; } };
static_assert(std::input_iterator<in_it> && std::sentinel_for<in_end, in_it>);
// a random access iterator with a sentinel of another type
struct ra_end { int const *p; friend bool operator==(int const *i, ra_end e) { return i == e.p; } friend std::ptrdiff_t operator-(ra_end e, int const *i) { return e.p - i; } friend std::ptrdiff_t operator-(int const *i, ra_end e) { return i - e.p; } };
constexpr size_t dyn = dtl::dynamic_extent;
template<typename T, size_t N, size_t M> struct H {
	using F = dtl::flex_array<T, N, M>; using D = dtl::flex_array<T, dyn, dyn>; using B3 = dtl::flex_array<T, dyn, 3>; using S = dtl::flex_array<T, 2>; using O = dtl::flex_array<T, 1, dyn>;
	using R = std::vector<int>;
	static constexpr bool fixed = !F::has_dynamic_extent; static constexpr size_t cap = F::has_max_extent ? M : 100;
	static_assert(F::mode == (N != dyn && N == M ? dtl::flex_array_mode::direct_static_size : N == dyn && M != dyn ? dtl::flex_array_mode::direct_dynamic_limited_size : N == dyn ? dtl::flex_array_mode::dynamic_size : dtl::flex_array_mode::sbo_dynamic_size));
	template<typename X> static void verify(char const *what, size_t i, X const &f, R const &r) {
		MC_CHECK(f.size() == r.size() && f.empty() == r.empty(), "%s%zu has %zu elements, expected %zu", what, i, f.size(), r.size());
		MC_CHECK(!X::has_max_extent || (f.size() <= X::max_extent && f.max_size() == X::max_extent), "%s%zu exceeds its bound", what, i);
		auto eq = [](T const &a, int b) { return val(a) == b; };
		X &m = const_cast<X &>(f); std::span<T const> s = f; std::span<T> ms = m;
		MC_CHECK((size_t) (f.end() - f.begin()) == r.size() && std::equal(f.begin(), f.end(), r.begin(), r.end(), eq), "%s%zu iterates wrongly", what, i);
		MC_CHECK(f.cbegin() == f.begin() && f.cend() == f.end() && m.begin() == f.begin() && m.end() == f.end() && f.data() == f.begin() && m.data() == f.begin(), "%s%zu: iterators disagree", what, i);
		MC_CHECK(std::equal(f.rbegin(), f.rend(), r.rbegin(), r.rend(), eq) && std::equal(f.crbegin(), f.crend(), r.rbegin(), r.rend(), eq) && std::equal(m.rbegin(), m.rend(), r.rbegin(), r.rend(), eq), "%s%zu iterates backwards wrongly", what, i);
		MC_CHECK(s.size() == r.size() && ms.size() == r.size() && (r.empty() || (s.data() == f.data() && ms.data() == f.data())), "%s%zu: span wrong", what, i);
		for (size_t k = 0; k < r.size(); ++k) MC_CHECK(&f[k] == f.data() + k && &m[k] == f.data() + k && val(f[k]) == r[k], "%s%zu[%zu] wrong", what, i, k);
	}
	template<typename X> static void read(X const &f, R &r) { r.clear(); MC_CHECK(f.size() < 100, "size garbled"); for (auto const &e : f) r.push_back(val(e)); }
	static void set(F &f, R &r, size_t from, int v) { for (size_t k = from; k < f.size(); ++k) { f[k] = T(v + (int) k); if (k < r.size()) r[k] = v + (int) k; else r.push_back(v + (int) k); } }
	static F from_list(R const &l) {
		using I = std::initializer_list<T>;
		switch (l.size()) { case 0: return F(I{}); case 1: return F(I{T(l[0])}); case 2: return F{T(l[0]), T(l[1])}; case 3: return F{T(l[0]), T(l[1]), T(l[2])}; case 4: return F{T(l[0]), T(l[1]), T(l[2]), T(l[3])}; default: return F{T(l[0]), T(l[1]), T(l[2]), T(l[3]), T(l[4])}; }
	}
	// conversions into mode X from f
	template<typename X> static void conv(char const *what, F &f, R const &r) {
		if constexpr (std::is_same_v<X, F>) return;
		else if constexpr (fixed && X::has_dynamic_extent && N <= X::max_extent) { X x(f); verify(what, 0, x, r); X y = f; verify(what, 1, y, r); if (!r.empty()) { x[0] = T(99); verify("source of ", 0, f, r); } back(x, f); }
		else if constexpr (!fixed && !X::has_dynamic_extent) {
			bool thrown = false; try { X x(f); verify(what, 0, x, r); } catch (std::length_error const &) { thrown = true; }
			MC_CHECK(thrown == (r.size() != X::extent), "conversion of %zu elements to a fixed size of %zu %s", r.size(), (size_t) X::extent, thrown ? "fails" : "succeeds"); verify("source of ", 0, f, r);
		}
	}
	template<typename X> static void back(X &x, F const &) { if constexpr (fixed) { R q; read(x, q); F g(x); verify("back from ", 0, g, q); x.resize(x.size() > 0 ? x.size() - 1 : x.size() + 1); bool t = false; try { F h(x); } catch (std::length_error const &) { t = true; } MC_CHECK(t, "conversion from a non-matching size succeeds"); } }
	static void body(int depth) {
		L.reset();
		{
			sut in_sut;
			std::optional<F> f[3]; R r[3];
			for (int i = 0; i < 3; ++i) { f[i].emplace(); if (!fixed) MC_CHECK(f[i]->size() == 0, "a new array is not empty"); set(*f[i], r[i], 0, 10 * i); }
			auto check = [&] { u64 h = 1; for (size_t i = 0; i < 3; ++i) { verify("#", i, *f[i], r[i]); h = mix(h, r[i].size()); for (int x : r[i]) h = mix(h, (u64) x); } state(h);
				for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) MC_CHECK((*f[i] == *f[j]) == (r[i] == r[j]) && (*f[i] != *f[j]) == (r[i] != r[j]) && (*f[i] <=> *f[j]) == (r[i] <=> r[j]) && (*f[i] < *f[j]) == (r[i] < r[j]) && (*f[i] <= *f[j]) == (r[i] <= r[j]), "#%d and #%d compare wrongly", i, j); };
			check();
			for (int d = 0; d < depth; ++d) {
				size_t i = (size_t) choose(3), j; int o = choose(9);
				switch (o) {
					case 0: case 1: {
						int n = F::has_max_extent ? choose((int) cap + 2) : (d == 0 ? choose(6) : 3 * choose(2)), k = o == 0 ? 0 : 1 + choose(d == 0 ? 5 : 1); R l; for (int x = 0; x < n; ++x) l.push_back(20 + 10 * d + x * x - 2 * x); op("#%zu from %d elements, way %d", i, n, k);
						if (k > 0 && fixed && (size_t) n < cap) { d = depth; break; } // not defined: the rest stays indeterminate
						bool thrown = false;
						try {
							int const *b = l.data(), *e = b + n; std::list<int> li(l.begin(), l.end());
							F g = k == 0 ? from_list(l) : k == 1 ? F(b, e) : k == 2 ? F(li.begin(), li.end()) : k == 3 ? F(in_it{b}, in_end{e}) : k == 4 ? F(b, ra_end{e}) : F(std::counted_iterator(li.begin(), n), std::default_sentinel);
							verify("new #", i, g, l); f[i].reset(); f[i].emplace(std::move(g));
						} catch (std::length_error const &) { thrown = true; }
						bool bad = (F::has_max_extent && (size_t) n > cap) || (fixed && (size_t) n != cap);
						MC_CHECK(thrown == bad, "%d elements are %s", n, thrown ? "rejected" : "accepted"); if (!thrown) r[i] = l; break; }
					case 2: j = (size_t) choose(3); if (i == j) { d = depth; break; } op("#%zu copy of #%zu", j, i); { F g(*f[i]); verify("copy of #", i, g, r[i]); set(g, r[j] = r[i], 0, 70); verify("source #", i, *f[i], r[i]); f[j].reset(); f[j].emplace(*f[i]); r[j] = r[i]; } break;
					case 3: j = (size_t) choose(3); if (i == j) { d = depth; break; } op("#%zu moved from #%zu", j, i); f[j].reset(); f[j].emplace(std::move(*f[i])); r[j] = r[i]; verify("#", j, *f[j], r[j]); read(*f[i], r[i]); set(*f[i], r[i], 0, 40); break;
					case 4: j = (size_t) choose(3); op("#%zu = #%zu", j, i); *f[j] = *f[i]; r[j] = r[i]; break;
					case 5: j = (size_t) choose(3); if (i == j) { d = depth; break; } op("#%zu = move(#%zu)", j, i); *f[j] = std::move(*f[i]); r[j] = r[i]; verify("#", j, *f[j], r[j]); read(*f[i], r[i]); set(*f[i], r[i], 0, 50); break;
					case 6: j = (size_t) choose(3); if (j > i) { d = depth; break; } op("swap #%zu #%zu", i, j); { using std::swap; swap(*f[i], *f[j]); } std::swap(r[i], r[j]); break;
					case 7: if constexpr (!fixed) { int n = d == 0 ? choose(6) : F::has_max_extent ? choose((int) cap + 2) : 2 * choose(3); op("resize #%zu to %d", i, n); bool thrown = false; size_t old = r[i].size(); try { f[i]->resize((size_t) n); } catch (std::invalid_argument const &) { thrown = true; } MC_CHECK(thrown == ((size_t) n > cap), "resize to %d %s", n, thrown ? "fails" : "succeeds");
							if (!thrown) { r[i].resize((size_t) n); MC_CHECK(f[i]->size() == (size_t) n, "resize to %d gives %zu", n, f[i]->size()); set(*f[i], r[i], old, 60); } } else d = depth; break;
					case 8: if (choose(2)) { op("convert #%zu", i); conv<D>("unbounded from #", *f[i], r[i]); conv<B3>("bounded from #", *f[i], r[i]); conv<S>("fixed from #", *f[i], r[i]); conv<O>("small-buffer from #", *f[i], r[i]); conv<dtl::flex_array<T, 3>>("fixed from #", *f[i], r[i]); conv<dtl::flex_array<T, 0>>("fixed from #", *f[i], r[i]); }
						else if (!r[i].empty()) { size_t k = (size_t) choose((int) r[i].size()); int w = choose(3); op("write #%zu[%zu] way %d", i, k, w); T x(5); if (w == 0) (*f[i])[k] = x; else if (w == 1) *(f[i]->begin() + k) = x; else *(f[i]->rend() - 1 - (long) k) = x; r[i][k] = 5; } break;
				}
				check();
			}
		}
		L.expect(0);
	}
};
// comparisons: all pairs of sequences up to a length, against the sequences themselves
template<typename F, typename T> static void compare(std::vector<T> const &alpha, size_t maxlen) {
	std::vector<std::vector<T>> all{{}}; for (size_t k = 0; k < all.size(); ++k) if (all[k].size() < maxlen) for (auto const &a : alpha) { auto l = all[k]; l.push_back(a); all.push_back(l); }
	if constexpr (!F::has_dynamic_extent) std::erase_if(all, [&](auto const &l) { return l.size() != F::extent; });
	auto const &a = all[(size_t) choose((int) all.size())]; F fa(a.begin(), a.end()); op("compare with all");
	for (auto const &b : all) {
		F fb(b.begin(), b.end());
		auto ref = std::lexicographical_compare_three_way(a.begin(), a.end(), b.begin(), b.end());
		static_assert(std::is_same_v<decltype(fa <=> fb), decltype(ref)>);
		MC_CHECK((fa <=> fb) == ref && (fa == fb) == (a == b) && (fa != fb) == !(a == b) && (fa < fb) == (ref < 0) && (fa <= fb) == (ref <= 0) && (fa > fb) == (ref > 0) && (fa >= fb) == (ref >= 0), "sequences of %zu and %zu elements compare wrongly", a.size(), b.size());
	}
	state(mix(1, (u64) (&a - all.data())));
}
struct only_eq { int v; bool operator==(only_eq const &) const = default; };
int main(int argc, char **argv) {
	std::vector<scenario> v;
#ifndef DEPTH
#define DEPTH 3
#endif
#define ONE(T, N, M) v.push_back({#T "," #N "," #M, [=] { H<T, N, M>::body(DEPTH + THOROUGH); }})
	ONE(int, 0, 0); ONE(int, 2, 2); ONE(int, dyn, 0); ONE(int, dyn, 2); ONE(int, dyn, dyn); ONE(int, 2, dyn); 
#undef ONE
#define ONE(T, N, M) v.push_back({#T "," #N "," #M, [=] { H<T, N, M>::body(2 + THOROUGH); }})
	ONE(int, 3, 3); ONE(int, dyn, 3); ONE(int, 1, dyn); ONE(int, 1, 1); ONE(int, dyn, 1);
	
#undef ONE
#define ONE(T, N, M) v.push_back({#T "," #N "," #M, [=] { H<T, N, M>::body(DEPTH + THOROUGH); }})
	ONE(box, 2, 2); ONE(box, dyn, 2); ONE(box, dyn, dyn); ONE(box, 2, dyn);
	double nan = std::numeric_limits<double>::quiet_NaN(); size_t n = THOROUGH ? 4 : 3;
#define CMP(N, M) v.push_back({"compare-int," #N "," #M, [=] { compare<dtl::flex_array<int, N, M>, int>({-1, 0, 7}, n); }}); v.push_back({"compare-double," #N "," #M, [=] { compare<dtl::flex_array<double, N, M>, double>({-1.5, nan, 0.0, -0.0}, n); }}); \
	v.push_back({"compare-equality-only," #N "," #M, [=] { dtl::flex_array<only_eq, N, M> a{only_eq{1}, only_eq{2}}, b{only_eq{1}, only_eq{2}}, c{only_eq{3}, only_eq{2}}; MC_CHECK(a == b && !(a == c) && a != c && !(a != b), "equality-only elements compare wrongly"); }})
	CMP(2, 2); CMP(dyn, 4); CMP(dyn, dyn); CMP(2, dyn);
	if (DEPTH + THOROUGH > 2) v = split(v);
	return run(argc, argv, v);
}
