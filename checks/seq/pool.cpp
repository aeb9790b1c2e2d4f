// pool / pool_allocator: every sequence of allocations and deallocations over all buckets, with failing memory.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/pool_allocator.hpp>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
struct block { unsigned char *p; size_t n; int tag; };
struct blocks {
	std::vector<block> v; int next = 1;
	static size_t align_of(size_t n) { size_t a = 1; while (a < 16 && n && n % (a * 2) == 0) a *= 2; return a; }
	void add(void *q, size_t n, int tag, size_t al = 0) {
		harness h; auto *p = (unsigned char *) q;
		MC_CHECK(p != nullptr, "a null pointer is handed out");
		MC_CHECK((size_t) p % (al ? al : align_of(n)) == 0, "a block of %zu bytes is not aligned for the objects of that size", n);
		for (auto &b : v) MC_CHECK(p + (n ? n : 1) <= b.p || b.p + (b.n ? b.n : 1) <= p, "a block of %zu bytes overlaps a live block of %zu bytes", n, b.n);
		memset(p, (next * 37 + 5) & 255, n); v.push_back({p, n, tag}); v.back().tag = (next++ & 0xffff) | tag << 16;
	}
	void check() { for (auto &b : v) for (size_t i = 0; i < b.n; ++i) if (b.p[i] != (((b.tag & 0xffff) * 37 + 5) & 255)) fail("the contents of a live block of %zu bytes changed", b.n); }
	block take(size_t k) { harness h; block b = v[k]; v.erase(v.begin() + (long) k); return b; }
	u64 hash() { u64 h = 3; for (auto &b : v) h = mix(h, b.n); return h; }
};
template<size_t... B>
static void pool_ops(std::vector<size_t> const &sizes, int depth, bool faults) {
	using P = dtl::pool<B...>;
	blocks bl;
	{
		std::optional<P> pl; { sut s; pl.emplace(); }
		auto free_one = [&](size_t k) { block b = bl.take(k); sut s; pl->deallocate(b.p, b.n); };
		auto alloc = [&](size_t n) {
			int f = E.faults_left; void *p = nullptr; bool thrown = false;
			{ sut s; E.alloc_faults = faults; try { p = pl->allocate(n); } catch (std::bad_alloc const &) { thrown = true; } E.alloc_faults = false; }
			bool huge = n > (size_t) 1 << 31;
			if (thrown) MC_CHECK(huge || f != E.faults_left, "an allocation of %zu bytes fails although memory is available", n);
			else { MC_CHECK(!huge, "an impossible request of %zu bytes succeeds", n); bl.add(p, n, 0); }
		};
		for (int d = 0; d < depth; ++d) {
			int ns = (int) sizes.size(), o = choose(ns + 2 + (int) std::min<size_t>(bl.v.size(), 4));
			if (o < ns) { op("allocate %zu", sizes[(size_t) o]); alloc(sizes[(size_t) o]); }
			else if (o == ns) { int s = choose(ns); if (sizes[(size_t) s] > 100000) break; op("allocate 40 x %zu, free every other", sizes[(size_t) s]); size_t b = bl.v.size(); for (int i = 0; i < 40; ++i) alloc(sizes[(size_t) s]); bl.check(); for (size_t i = b; i < bl.v.size(); ++i) free_one(i); }
			else if (o == ns + 1) { // allocate/free cycles do not grow memory
				op("cycle"); E.faults_left = 0; for (size_t s : sizes) if (s < 100000) { alloc(s); free_one(bl.v.size() - 1); }
				size_t before = E.live_bytes; for (int i = 0; i < 50; ++i) for (size_t s : sizes) if (s < 100000) { alloc(s); free_one(bl.v.size() - 1); }
				MC_CHECK(E.live_bytes == before, "allocating and freeing repeatedly grows memory from %zu to %zu bytes", before, E.live_bytes); }
			else { size_t k = (size_t) (o - ns - 2); if (k >= 2) k = k == 2 ? bl.v.size() - 1 : bl.v.size() / 2; op("free block %zu (%zu bytes)", k, bl.v[k].n); free_one(k); }
			bl.check(); state(mix(bl.hash(), sizeof...(B)));
		}
		while (!bl.v.empty()) { free_one(bl.v.size() / 2); bl.check(); }
		sut s; pl.reset();
	}
	MC_CHECK(E.live_blocks == 0, "the dead pool leaves %ld blocks allocated", E.live_blocks);
}

struct big { char c[40]; };
struct alignas(16) al16 { char c[16]; };
template<size_t... B>
static void alloc_ops(int depth) {
	using A = dtl::pool_allocator<int, B...>;
	using L = typename std::allocator_traits<A>::template rebind_alloc<al16>;
	using G = typename std::allocator_traits<A>::template rebind_alloc<big>;
	static_assert(std::allocator_traits<A>::propagate_on_container_swap::value);
	blocks bl; // tag: group*8 + kind
	{
		std::vector<A> al; std::vector<A> keep; std::vector<int> grp{0, 0, 1};
		std::shared_ptr<dtl::pool<B...>> shp;
		{ sut s; shp = std::make_shared<dtl::pool<B...>>(); }
		{ harness h; al.reserve(3); keep.reserve(2); }
		{ sut s; keep.emplace_back(); keep.emplace_back(shp); }
		al.push_back(keep[0]); al.push_back(keep[0]); al.push_back(keep[1]); shp.reset();
		auto kind = [&](block const &b) { return (b.tag >> 16) & 7; }; auto group = [&](block const &b) { return b.tag >> 19; };
		auto free_one = [&](size_t k, A &a) { block b = bl.take(k); sut s; if (kind(b) == 0) a.deallocate((int *) b.p, b.n / 4); else if (kind(b) == 1) { L l(a); l.deallocate((al16 *) b.p, b.n / 16); } else { G g(a); g.deallocate((big *) b.p, b.n / 40); } };
		auto check = [&] {
			bl.check(); u64 h = bl.hash(); for (int g : grp) h = mix(h, (u64) g); state(h);
			for (size_t i = 0; i < 3; ++i) { for (size_t j = 0; j < 3; ++j) { bool e = al[i] == al[j]; MC_CHECK(e == (grp[i] == grp[j]) && e != (al[i] != al[j]), "allocators #%zu and #%zu compare wrongly", i, j); } MC_CHECK(al[i] == keep[(size_t) grp[i]], "an allocator no longer equals its source"); MC_CHECK(al[i].underlying_pool() == keep[(size_t) grp[i]].underlying_pool() && al[i].underlying_pool() != nullptr, "an allocator lost its pool"); }
		};
		auto allocate = [&]<typename X>(X a, int g, size_t n, int kd) {
			constexpr size_t sz = sizeof(typename X::value_type); bool ok = n <= (1ul << 20); int f = E.faults_left;
			void *p = nullptr; bool thrown = false;
			{ sut s; E.alloc_faults = true; try { p = a.allocate(n); } catch (std::bad_alloc const &) { thrown = true; } E.alloc_faults = false; }
			if (thrown) MC_CHECK(!ok || f != E.faults_left, "allocating %zu objects of %zu bytes fails although memory is available", n, sz);
			else { MC_CHECK(ok, "allocating %zu objects of %zu bytes succeeds", n, sz); bl.add(p, n * sz, g * 8 + kd, alignof(typename X::value_type)); }
		};
		for (int d = 0; d < depth; ++d) {
			int i = 0, j = 0;
			switch (choose(11)) {
				case 0: { i = choose(3); static constexpr size_t ns[] = {0, 1, 2, 6, 20, std::numeric_limits<size_t>::max() / 4 + 2, std::numeric_limits<size_t>::max() / 4}; size_t n = ns[choose(7)]; op("allocate %zu ints through #%d", n, i); allocate(al[(size_t) i], grp[(size_t) i], n, 0); break; }
				case 1: { i = choose(3); static constexpr size_t ns[] = {1, 3, std::numeric_limits<size_t>::max() / 16 + 2}; size_t n = ns[choose(3)]; op("allocate %zu 16-aligned objects through a rebound #%d", n, i); allocate(L(al[(size_t) i]), grp[(size_t) i], n, 1); break; }
				case 2: { i = choose(3); static constexpr size_t ns[] = {1, std::numeric_limits<size_t>::max() / 40 + 1}; size_t n = ns[choose(2)]; op("allocate %zu big objects through a rebound #%d", n, i); allocate(G(al[(size_t) i]), grp[(size_t) i], n, 2); break; }
				case 3: { if (bl.v.empty()) { d = depth; break; } size_t k = (size_t) choose((int) bl.v.size()); int g = group(bl.v[k]); std::vector<size_t> ok; for (size_t x = 0; x < 3; ++x) if (grp[x] == g) ok.push_back(x); A &a = ok.empty() ? keep[(size_t) g] : al[ok[(size_t) choose((int) ok.size())]]; op("deallocate block %zu", k); free_one(k, a); break; }
				case 4: case 5: { bool so = choose(2); i = choose(3); j = choose(3); if (i == j) { d = depth; break; } op("#%d = %s of #%d", j, so ? "soccc" : "round trip", i); A t = so ? std::allocator_traits<A>::select_on_container_copy_construction(al[(size_t) i]) : A(G(L(al[(size_t) i]))); std::destroy_at(&al[(size_t) j]); std::construct_at(&al[(size_t) j], t); grp[(size_t) j] = grp[(size_t) i]; break; }
				case 6: { i = choose(3); j = choose(3); if (i == j) { d = depth; break; } op("#%d moved from #%d", j, i); std::destroy_at(&al[(size_t) j]); std::construct_at(&al[(size_t) j], std::move(al[(size_t) i])); grp[(size_t) j] = grp[(size_t) i]; break; }
				case 7: { i = choose(3); j = choose(3); op("#%d = #%d", j, i); al[(size_t) j] = al[(size_t) i]; grp[(size_t) j] = grp[(size_t) i]; break; }
				case 8: { i = choose(3); j = choose(3); if (i == j) { d = depth; break; } op("#%d = move(#%d)", j, i); al[(size_t) j] = std::move(al[(size_t) i]); grp[(size_t) j] = grp[(size_t) i]; break; }
				case 9: { i = choose(3); j = choose(i + 1); op("swap #%d #%d", i, j); using std::swap; swap(al[(size_t) i], al[(size_t) j]); std::swap(grp[(size_t) i], grp[(size_t) j]); break; }
				case 10: { i = choose(3); op("containers on #%d", i); sut s;
					std::vector<int, A> v(al[(size_t) i]); for (int k = 0; k < 40; ++k) v.push_back(k);
					std::vector<int, A> w(std::move(v)); v = std::vector<int, A>(al[(size_t) i]); v.push_back(7); v.swap(w); w = v;
					std::list<int, A> l(v.begin(), v.end(), al[(size_t) i]); std::list<int, A> m(std::move(l)); l.push_back(3); m.splice(m.end(), l);
					std::map<int, big, std::less<>, typename std::allocator_traits<A>::template rebind_alloc<std::pair<int const, big>>> mp{A(al[(size_t) i])}; for (int k = 0; k < 10; ++k) mp[k] = {}; mp.erase(3);
					int k = 0; for (int x : v) MC_CHECK(x == k++, "container contents changed"); MC_CHECK(v.size() == 40 && w.size() == 40 && m.size() == 41 && m.back() == 3 && mp.size() == 9, "container sizes wrong"); break; }
			}
			check();
		}
		while (!bl.v.empty()) { int g = group(bl.v[0]); free_one(0, keep[(size_t) g]); }
		// the pool lives as long as any allocator refers to it
		int g = grp[1]; { harness h; keep.clear(); }
		{ A a = al[1]; al.clear(); int *p; { sut s; p = a.allocate(3); } p[0] = p[2] = 5; A b = a; { sut s; b.deallocate(p, 3); } (void) g; }
	}
	MC_CHECK(E.live_blocks == 0, "after the last allocator died %ld blocks are still allocated", E.live_blocks);
}
int main(int argc, char **argv) {
	constexpr size_t M = std::numeric_limits<size_t>::max();
	int d = THOROUGH ? 5 : 4, da = THOROUGH ? 4 : 3;
	auto v = split({
		{"pool<8,24,64>", [d] { pool_ops<8, 24, 64>({8, 9, 24, 64, 65}, d, false); }},
		{"pool<8,24,64>,edges", [d] { pool_ops<8, 24, 64>({0, 1, 8, 16, 24, 25, 64, 65, M}, d - 1, false); }},
		{"pool<24>", [d] { pool_ops<24>({1, 16, 24, 32, 100}, d, false); }},
		{"pool<8,16>", [d] { pool_ops<8, 16>({4, 8, 16, 17}, d, false); }},
		{"pool<1,100>", [d] { pool_ops<1, 100>({1, 2, 96, 100, 112}, d, false); }},
		{"pool<8,24,64>,failing", [d] { pool_ops<8, 24, 64>({8, 24, 65}, d - 1, true); }, 2}});
	auto w = split({{"allocator<8,24,64>", [da] { alloc_ops<8, 24, 64>(da); }, 1}, {"allocator<16>", [da] { alloc_ops<16>(da); }, 1}});
	v.insert(v.end(), w.begin(), w.end());
	return run(argc, argv, v);
}
