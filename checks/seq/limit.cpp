// limit_allocator: every sequence of allocations, deallocations, copies, moves, rebinds, assignments and swaps.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/limit_allocator.hpp>
#include <limits>
#include <list>
#include <memory>
#include <optional>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif

static long up_out[16]; // bytes outstanding per upstream
template<typename T>
struct up {
	using value_type = T;
	using propagate_on_container_copy_assignment = std::true_type;
	using propagate_on_container_move_assignment = std::true_type;
	using propagate_on_container_swap = std::true_type;
	int id = 0;
	up() = default;
	explicit up(int i) : id(i) {}
	template<typename U> up(up<U> const &o) noexcept : id(o.id) {}
	T *allocate(size_t n) {
		if (n > std::numeric_limits<size_t>::max() / sizeof(T)) throw std::bad_array_new_length{};
		if (fault("upstream allocation fails")) throw std::bad_alloc{};
		auto *p = static_cast<size_t *>(std::malloc(16 + n * sizeof(T))); p[0] = n * sizeof(T); p[1] = (size_t) id; up_out[id] += (long) (n * sizeof(T));
		return reinterpret_cast<T *>(p + 2);
	}
	void deallocate(T *q, size_t n) {
		auto *p = reinterpret_cast<size_t *>(q) - 2;
		MC_CHECK(p[0] == n * sizeof(T), "upstream gets back a block of %zu bytes as %zu", p[0], n * sizeof(T));
		MC_CHECK(p[1] == (size_t) id, "a block of upstream %zu is returned to upstream %d", p[1], id);
		up_out[id] -= (long) (n * sizeof(T)); std::free(p);
	}
	bool operator==(up const &) const = default;
};
// an upstream without a default constructor
template<typename T> struct up_nd : up<T> { using value_type = T; explicit up_nd(int i) : up<T>(i) {} template<typename U> up_nd(up_nd<U> const &o) noexcept : up<T>(o.id) {} bool operator==(up_nd const &) const = default; };

template<template<typename> typename Up, dtl::limit_allocator_syncness S>
struct test {
	using A = dtl::limit_allocator<int, Up, S>;
	using C = typename std::allocator_traits<A>::template rebind_alloc<char>;
	using D = typename std::allocator_traits<A>::template rebind_alloc<double>;
	static constexpr size_t limit[2] = {12, 20}; // bytes: 3 and 5 ints
	struct block { int g; char *p; size_t n; int kind; };
	std::vector<A> al; std::vector<int> grp; std::vector<A> keep; size_t left[2] = {limit[0], limit[1]}; std::vector<block> bl;
	static int id(int g) { return g + 1; }
	test() {
		al.reserve(3); keep.reserve(2);
		keep.emplace_back(limit[0], Up<int>(id(0))); { Up<int> u(id(1)); keep.emplace_back(limit[1], u); }
		al.push_back(keep[0]); al.push_back(keep[0]); al.push_back(A(limit[1], std::in_place, id(1))); keep[1] = al[2];
		grp = {0, 0, 1};
	}
	void check() {
		for (size_t i = 0; i < al.size(); ++i) {
			MC_CHECK(al[i].upstream_allocator().id == id(grp[i]), "allocator %zu wraps upstream %d, %d expected", i, al[i].upstream_allocator().id, id(grp[i]));
			for (size_t j = 0; j < al.size(); ++j) {
				bool e = al[i] == al[j], ne = al[i] != al[j];
				MC_CHECK(e == (grp[i] == grp[j]) && ne == !e, "allocators %zu and %zu compare %s", i, j, e ? "equal" : "unequal");
			}
			MC_CHECK(al[i] == keep[(size_t) grp[i]], "allocator %zu no longer equals its source", i);
		}
		for (int g = 0; g < 2; ++g) MC_CHECK(up_out[id(g)] == (long) (limit[g] - left[g]), "budget %d: %ld bytes outstanding, %zu expected", g, up_out[id(g)], limit[g] - left[g]);
		u64 h = 7; for (int g : grp) h = mix(h, (u64) g); for (size_t l : left) h = mix(h, l); for (auto &b : bl) h = mix(h, (u64) b.g * 1000 + b.n * 10 + (u64) b.kind); state(h);
	}
	template<typename X> void allocate(X &a, int g, size_t n, int kind) {
		constexpr size_t sz = sizeof(typename X::value_type);
		bool rep = n <= std::numeric_limits<size_t>::max() / sz; size_t bytes = n * sz; int f = E.faults_left;
		try {
			auto *p = std::allocator_traits<X>::allocate(a, n);
			MC_CHECK(rep && bytes <= left[g], "an allocation of %zu bytes succeeds with %zu bytes left", bytes, left[g]);
			memset((void *) p, 0x11, bytes); left[g] -= bytes; bl.push_back({g, (char *) p, n, kind}); observe(bytes);
		} catch (std::bad_alloc const &) {
			bool injected = f != E.faults_left;
			MC_CHECK(!rep || bytes > left[g] || injected, "an allocation of %zu bytes is refused with %zu bytes left", bytes, left[g]); observe(99);
		}
	}
	void free_one(size_t k, A &a) {
		block b = bl[k]; bl.erase(bl.begin() + (long) k);
		if (b.kind == 0) { std::allocator_traits<A>::deallocate(a, (int *) b.p, b.n); left[b.g] += b.n * 4; }
		else if (b.kind == 1) { C c(a); std::allocator_traits<C>::deallocate(c, b.p, b.n); left[b.g] += b.n; }
		else { D c(a); std::allocator_traits<D>::deallocate(c, (double *) b.p, b.n); left[b.g] += b.n * 8; }
	}
	void go(int depth) {
		check();
		for (int d = 0; d < depth; ++d) {
			static constexpr size_t ns[] = {1, 2, 3, 4, std::numeric_limits<size_t>::max() / 4 + 2};
			int o = choose(14);
			switch (o) {
				case 0: { int i = choose(3); size_t n = ns[choose(5)]; op("allocate %zu through #%d", n, i); allocate(al[(size_t) i], grp[(size_t) i], n, 0); break; }
				case 1: { int i = choose(3); size_t n = (size_t[]) {5, 1, 0}[choose(3)]; op("allocate %zu chars through a rebound copy of #%d", n, i); C c(al[(size_t) i]); allocate(c, grp[(size_t) i], n, 1); break; }
				case 2: { int i = choose(3); op("allocate 1 double through a rebound copy of #%d", i); D c(al[(size_t) i]); allocate(c, grp[(size_t) i], 1, 2); break; }
				case 3: { if (bl.empty()) return; size_t k = (size_t) choose((int) bl.size()); std::vector<size_t> ok; for (size_t i = 0; i < 3; ++i) if (grp[i] == bl[k].g) ok.push_back(i);
					if (ok.empty()) { op("deallocate block %zu", k); free_one(k, keep[(size_t) bl[k].g]); } else { size_t i = ok[(size_t) choose((int) ok.size())]; op("deallocate block %zu through #%zu", k, i); free_one(k, al[i]); } break; }
				case 4: case 5: case 6: { int i = choose(3), j = choose(3); // copy-construct / SOCCC / round trip through another type, then replace
					op("#%d = %s of #%d", j, o == 4 ? "copy" : o == 5 ? "select_on_container_copy_construction" : "rebound and rebound-back copy", i);
					A t = o == 4 ? A(al[(size_t) i]) : o == 5 ? std::allocator_traits<A>::select_on_container_copy_construction(al[(size_t) i]) : A(C(D(al[(size_t) i])));
					if (i != j) { std::destroy_at(&al[(size_t) j]); std::construct_at(&al[(size_t) j], t); grp[(size_t) j] = grp[(size_t) i]; } else { MC_CHECK(t == al[(size_t) i], "a copy differs from its source"); } break; }
				case 7: { int i = choose(3), j = choose(3); if (i == j) return; op("#%d move-constructed from #%d", j, i); std::destroy_at(&al[(size_t) j]); std::construct_at(&al[(size_t) j], std::move(al[(size_t) i])); grp[(size_t) j] = grp[(size_t) i]; break; }
				case 8: { int i = choose(3), j = choose(3); op("#%d = #%d", j, i); al[(size_t) j] = al[(size_t) i]; grp[(size_t) j] = grp[(size_t) i]; break; }
				case 9: { int i = choose(3), j = choose(3); if (i == j) return; op("#%d = move(#%d)", j, i); al[(size_t) j] = std::move(al[(size_t) i]); grp[(size_t) j] = grp[(size_t) i]; break; }
				case 10: { int i = choose(3), j = choose(i + 1); op("swap #%d #%d", i, j); using std::swap; swap(al[(size_t) i], al[(size_t) j]); std::swap(grp[(size_t) i], grp[(size_t) j]); break; }
				case 11: { int i = choose(3); op("rebound allocators of #%d share and equal", i); C a(al[(size_t) i]), b(al[(size_t) i]); MC_CHECK(a == b, "two rebound copies of one allocator differ"); C c(std::move(a)); MC_CHECK(c == b && a == b, "moving a rebound allocator changes it"); break; }
				case 12: { // a container lives on the budget: what it does not get it reports, what it takes it returns
					int i = choose(3); size_t n = 1 + (size_t) choose(4); op("vector of %zu ints on #%d", n, i); int g = grp[(size_t) i]; int f = E.faults_left;
					try { std::vector<int, A> v(n, 5, al[(size_t) i]); MC_CHECK(n * 4 <= left[g], "a container of %zu bytes fits into %zu", n * 4, left[g]); std::vector<int, A> w(std::move(v)); MC_CHECK(up_out[id(g)] == (long) (limit[g] - left[g] + n * 4), "outstanding bytes wrong while a container lives");
						v.assign(1, 2); } // a moved-from container is usable
					catch (std::bad_alloc const &) { MC_CHECK(2 * n * 4 > left[g] || (n + 1) * 4 > left[g] || f != E.faults_left, "a container of %zu bytes is refused with %zu bytes left", n * 4, left[g]); } break; }
				case 13: { int i = choose(3); op("list of 1 on #%d", i); int g = grp[(size_t) i]; int f = E.faults_left; using L1 = std::list<char, C>;
					try { L1 l{C(al[(size_t) i])}; l.push_back('a'); L1 k(l); (void) k; MC_CHECK(up_out[id(g)] > (long) (limit[g] - left[g]), "a list node is not charged"); } catch (std::bad_alloc const &) { (void) f; } break; }
			}
			check();
		}
		while (!bl.empty()) free_one(0, keep[(size_t) bl[0].g]);
		E.faults_left = 0;
		for (int g = 0; g < 2; ++g) {
			C c(keep[(size_t) g]);
			try { char *p = c.allocate(limit[g] + 1); (void) p; fail("budget %d: more than the limit can be allocated once everything was returned", g); } catch (std::bad_alloc const &) {}
			char *p = nullptr; try { p = c.allocate(limit[g]); } catch (std::bad_alloc const &) { fail("budget %d: the full limit is not available once everything was returned", g); }
			c.deallocate(p, limit[g]);
		}
		check();
	}
};
template<template<typename> typename Up, dtl::limit_allocator_syncness S> static void body(int depth) { memset(up_out, 0, sizeof up_out); test<Up, S> t; t.go(depth); }

// the default upstream, constructors taking only the limit, limits at the extremes
static void basic() {
	size_t lim = (size_t[]) {0, 1, 8, std::numeric_limits<size_t>::max()}[choose(4)]; size_t n = (size_t[]) {0, 1, 2, 8, 9, std::numeric_limits<size_t>::max() / 2, std::numeric_limits<size_t>::max()}[choose(7)];
	op("limit %zu, allocate %zu", lim, n);
	auto t = [&]<typename A>(A a, size_t sz) {
		bool ok = n <= std::numeric_limits<size_t>::max() / sz && n * sz <= lim && n * sz < (1ul << 40);
		sut s; try { auto *p = a.allocate(n); MC_CHECK(ok, "allocating beyond the limit succeeds"); a.deallocate(p, n); } catch (std::bad_alloc const &) { MC_CHECK(!ok, "allocating within the limit fails"); }
		if (lim < 1000) { auto *p = a.allocate(lim / sz); a.deallocate(p, lim / sz); try { auto *q = a.allocate(lim / sz + 1); (void) q; fail("the limit grew"); } catch (std::bad_alloc const &) {} }
	};
	t(dtl::limit_allocator<char>(lim), 1); t(dtl::limit_allocator<int, std::allocator, dtl::limit_allocator_syncness::unsync>(lim), 4); t(dtl::limit_allocator<double, std::allocator>(lim, std::allocator<double>{}), 8);
	state(mix(lim, n));
}
int main(int argc, char **argv) {
	using enum dtl::limit_allocator_syncness;
	int d = THOROUGH ? 4 : 3;
	std::vector<scenario> v{{"default-upstream", basic}};
	auto s = split({{"sync", [d] { body<up, sync>(d); }, 1}, {"unsync", [d] { body<up, unsync>(d); }, 1}}, THOROUGH ? 2 : 1);
	v.insert(v.end(), s.begin(), s.end());
	v.push_back({"no-default-ctor", [] { body<up_nd, sync>(2); }, 1}); v.push_back({"no-default-ctor-unsync", [] { body<up_nd, unsync>(2); }, 1});
	return run(argc, argv, v);
}
