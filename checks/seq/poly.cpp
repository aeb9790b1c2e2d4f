// polymorphic_allocator / offset_ptr_stl_allocator: every sequence of allocator and container operations.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/polymorphic_allocator.hpp>
#include <limits>
#include <list>
#include <memory>
#include <optional>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
static int live_blocks; // blocks handed out by the wrapped allocators
struct hdr { int which, id; size_t bytes, tsize; };
// wrapped allocator number K; PC/PM/PS: propagation on copy/move/swap; its container-copy has its own id
template<int K, bool PC, bool PM, bool PS, bool AE = false>
struct base {
	template<typename T>
	struct al {
		using value_type = T;
		using propagate_on_container_copy_assignment = std::bool_constant<PC>;
		using propagate_on_container_move_assignment = std::bool_constant<PM>;
		using propagate_on_container_swap = std::bool_constant<PS>;
		using is_always_equal = std::bool_constant<AE>;
		int id = 0;
		al() = default;
		explicit al(int i) : id(i) {}
		al(al const &) = default;
		al &operator=(al const &) = default;
		template<typename U> al(typename base::template al<U> const &o) noexcept : id(o.id) {}
		T *allocate(size_t n) {
			if (n > 1000 || fault("wrapped allocator fails")) throw std::bad_alloc{};
			auto *h = static_cast<hdr *>(std::malloc(sizeof(hdr) + 8 + n * sizeof(T))); *h = {K, id, n * sizeof(T), sizeof(T)}; ++live_blocks; return reinterpret_cast<T *>(h + 1);
		}
		void deallocate(T *p, size_t n) {
			hdr *h = reinterpret_cast<hdr *>(p) - 1;
			MC_CHECK(h->which == K && h->id == id, "memory from allocator %d/%d is freed through allocator %d/%d", h->which, h->id, K, id);
			MC_CHECK(h->bytes == n * sizeof(T) && h->tsize == sizeof(T), "a block of %zu bytes (elements of %zu) is freed as %zu elements of %zu bytes", h->bytes, h->tsize, n, sizeof(T));
			h->which = -1; --live_blocks; std::free(h);
		}
		al select_on_container_copy_construction() const { return al(AE ? 0 : id < 50 ? id + 50 : id); }
		bool operator==(al const &o) const noexcept { return id == o.id; }
	};
};
// M: the first alternative never propagates although the others do; AE: the wrapped allocators have no state
template<bool PC, bool PM, bool PS, bool M = false, bool AE = false> struct cfg {
	template<typename T> struct a0 : base<0, PC && !M, PM && !M, PS && !M, AE>::template al<T> { using B = typename base<0, PC && !M, PM && !M, PS && !M, AE>::template al<T>; using value_type = T; using B::B; a0() = default; template<typename U> a0(a0<U> const &o) noexcept : B(o.id) {} a0 select_on_container_copy_construction() const { return a0(B::select_on_container_copy_construction().id); } bool operator==(a0 const &) const = default; };
	template<typename T> struct a1 : base<1, PC, PM, PS, AE>::template al<T> { using B = typename base<1, PC, PM, PS, AE>::template al<T>; using value_type = T; using B::B; a1() = default; template<typename U> a1(a1<U> const &o) noexcept : B(o.id) {} a1 select_on_container_copy_construction() const { return a1(B::select_on_container_copy_construction().id); } bool operator==(a1 const &) const = default; };
	template<typename T> struct a2 : base<2, PC, PM, PS, AE>::template al<T> { using B = typename base<2, PC, PM, PS, AE>::template al<T>; using value_type = T; using B::B; a2() = default; template<typename U> a2(a2<U> const &o) noexcept : B(o.id) {} a2 select_on_container_copy_construction() const { return a2(B::select_on_container_copy_construction().id); } bool operator==(a2 const &) const = default; };
	template<typename T> using P1 = dtl::polymorphic_allocator<T, a0>;
	template<typename T> using P2 = dtl::polymorphic_allocator<T, a0, a1>;
	template<typename T> using P3 = dtl::polymorphic_allocator<T, a0, a1, a2>;
	template<typename T> using O = dtl::offset_ptr_stl_allocator<T, a0>;
	// what an allocator is: which wrapped one, with which id
	struct ident { int k, id; bool operator==(ident const &) const = default; };
	static ident soccc(ident i) { return {i.k, AE ? 0 : i.id < 50 ? i.id + 50 : i.id}; }
	static constexpr int one = AE ? 0 : 1, two = AE ? 0 : 2;
	template<typename A> static constexpr int alts = 1;
	template<typename T> static constexpr int alts<P2<T>> = 2;
	template<typename T> static constexpr int alts<P3<T>> = 3;
	template<typename A> static A make(ident i, int how) {
		using T = typename A::value_type;
		if constexpr (std::is_same_v<A, O<T>>) { a0<T> u(i.id); return how == 0 ? A(std::in_place, i.id) : how == 1 ? A(u) : A(a0<T>(i.id)); }
		else {
			if (i.k == 0) { a0<T> u(i.id); return how == 0 ? A(std::in_place_type<a0<T>>, i.id) : how == 1 ? A(std::in_place_index<0>, i.id) : how == 2 ? A(u) : A(a0<T>(i.id)); }
			if constexpr (alts<A> > 1) if (i.k == 1) { a1<T> u(i.id); return how == 0 ? A(std::in_place_type<a1<T>>, i.id) : how == 1 ? A(std::in_place_index<1>, i.id) : how == 2 ? A(u) : A(a1<T>(i.id)); }
			if constexpr (alts<A> > 2) if (i.k == 2) { a2<T> u(i.id); return how == 0 ? A(std::in_place_type<a2<T>>, i.id) : how == 1 ? A(std::in_place_index<2>, i.id) : how == 2 ? A(u) : A(a2<T>(i.id)); }
			fail("bad ident");
		}
	}
	// which wrapped allocator really serves A: observed through the block header of a probe allocation
	template<typename A> static void verify(A const &a, ident e) {
		using T = typename A::value_type;
		if constexpr (std::is_same_v<A, O<T>>) MC_CHECK(a.upstream_allocator().id == e.id, "wraps allocator %d, %d expected", a.upstream_allocator().id, e.id);
		else {
			MC_CHECK(a.template holds_allocator<a0>() == (e.k == 0) && a.template holds_allocator<a0<T>>() == (e.k == 0), "holds_allocator<a0> wrong");
			if constexpr (alts<A> > 1) MC_CHECK(a.template holds_allocator<a1>() == (e.k == 1) && a.template holds_allocator<a1<T>>() == (e.k == 1), "holds_allocator<a1> wrong");
			if constexpr (alts<A> > 2) MC_CHECK(a.template holds_allocator<a2>() == (e.k == 2) && a.template holds_allocator<a2<T>>() == (e.k == 2), "holds_allocator<a2> wrong");
		}
		int f = E.faults_left; E.faults_left = 0;
		A c(a); auto p = std::allocator_traits<A>::allocate(c, 2); hdr *h = reinterpret_cast<hdr *>(std::to_address(p)) - 1;
		MC_CHECK(h->which == e.k && h->id == e.id && h->bytes == 2 * sizeof(T), "an allocation is served by allocator %d/%d with %zu bytes, expected %d/%d", h->which, h->id, h->bytes, e.k, e.id);
		std::allocator_traits<A>::deallocate(c, p, 2); E.faults_left = f;
	}
	template<typename A>
	static void allocator_ops(int depth) {
		using C = typename std::allocator_traits<A>::template rebind_alloc<char>; using D = typename std::allocator_traits<A>::template rebind_alloc<double>;
		static_assert(std::is_same_v<typename std::allocator_traits<C>::template rebind_alloc<int>, A>);
		static_assert(std::allocator_traits<A>::propagate_on_container_copy_assignment::value == (PC && !M) && std::allocator_traits<A>::propagate_on_container_move_assignment::value == (PM && !M) && std::allocator_traits<A>::propagate_on_container_swap::value == (PS && !M) && std::allocator_traits<A>::is_always_equal::value == (AE && alts<A> == 1));
		live_blocks = 0;
		std::vector<ident> pool{{0, one}, {0, two}}; if (alts<A> > 1) pool.push_back({1, one}); if (alts<A> > 2) pool.push_back({2, one});
		std::vector<A> al; al.reserve(3); std::vector<ident> is;
		for (int i = 0; i < 3; ++i) { ident e = pool[(size_t) i % pool.size()]; if (i == 2) e = pool.back(); al.push_back(make<A>(e, i)); is.push_back(e); }
		struct block { typename A::pointer p; typename D::pointer q; size_t n; ident e; }; std::vector<block> bl;
		auto check = [&] {
			u64 h = 5; for (auto e : is) h = mix(h, (u64) (e.k * 100 + e.id)); for (auto &b : bl) h = mix(h, b.n * 1000 + (u64) (b.e.k * 100 + b.e.id)); state(h);
			for (size_t i = 0; i < 3; ++i) { verify(al[i], is[i]); for (size_t j = 0; j < 3; ++j) { bool e = al[i] == al[j]; MC_CHECK(e == (is[i] == is[j]) && (al[i] != al[j]) == !e, "#%zu (%d/%d) and #%zu (%d/%d) compare %s", i, is[i].k, is[i].id, j, is[j].k, is[j].id, e ? "equal" : "unequal"); } }
			MC_CHECK(live_blocks == (int) bl.size(), "%d blocks are outstanding, %zu expected", live_blocks, bl.size());
		};
		auto free_block = [&](size_t k) { block b = bl[k]; bl.erase(bl.begin() + (long) k); A a = make<A>(b.e, 0); for (size_t i = 0; i < 3; ++i) if (is[i] == b.e) a = al[i]; // any equal allocator may free it
			if (b.p) std::allocator_traits<A>::deallocate(a, b.p, b.n); else { D d(a); std::allocator_traits<D>::deallocate(d, b.q, b.n); } };
		check();
		for (int d = 0; d < depth; ++d) {
			size_t i, j;
			switch (choose(10)) {
				case 0: { i = (size_t) choose(3); size_t n = (size_t[]) {1, 3, 0}[choose(3)]; op("allocate %zu ints through #%zu", n, i); try { auto p = std::allocator_traits<A>::allocate(al[i], n); bl.push_back({p, nullptr, n, is[i]}); hdr *h = reinterpret_cast<hdr *>(std::to_address(p)) - 1; MC_CHECK(h->bytes == 4 * n && h->which == is[i].k && h->id == is[i].id, "allocation served wrongly"); } catch (std::bad_alloc const &) { MC_CHECK(E.faults_left == 0, "allocation fails without reason"); } break; }
				case 1: { i = (size_t) choose(3); op("allocate 2 doubles through rebound #%zu", i); D a(al[i]); verify(a, is[i]); try { auto p = std::allocator_traits<D>::allocate(a, 2); bl.push_back({nullptr, p, 2, is[i]}); } catch (std::bad_alloc const &) { MC_CHECK(E.faults_left == 0, "allocation fails without reason"); } break; }
				case 2: { if (bl.empty()) { d = depth; break; } size_t k = (size_t) choose((int) bl.size()); op("deallocate block %zu", k); free_block(k); break; }
				case 3: { i = (size_t) choose(3); j = (size_t) choose(3); if (i == j) { d = depth; break; } op("#%zu = soccc of #%zu", j, i); A t = std::allocator_traits<A>::select_on_container_copy_construction(al[i]); verify(t, soccc(is[i])); std::destroy_at(&al[j]); std::construct_at(&al[j], t); is[j] = soccc(is[i]); break; }
				case 4: { i = (size_t) choose(3); j = (size_t) choose(3); if (i == j) { d = depth; break; } op("#%zu = round trip of #%zu", j, i); C c(al[i]); verify(c, is[i]); A t{D(c)}; std::destroy_at(&al[j]); std::construct_at(&al[j], t); is[j] = is[i]; break; }
				case 5: { i = (size_t) choose(3); j = (size_t) choose(3); if (i == j) { d = depth; break; } op("#%zu moved from #%zu", j, i); std::destroy_at(&al[j]); std::construct_at(&al[j], std::move(al[i])); is[j] = is[i]; break; }
				case 6: { i = (size_t) choose(3); j = (size_t) choose(3); op("#%zu = #%zu", j, i); al[j] = al[i]; is[j] = is[i]; break; }
				case 7: { i = (size_t) choose(3); j = (size_t) choose(3); if (i == j) { d = depth; break; } op("#%zu = move(#%zu)", j, i); al[j] = std::move(al[i]); is[j] = is[i]; break; }
				case 8: { i = (size_t) choose(3); j = (size_t) choose((int) i + 1); if (i == j) { d = depth; break; } op("swap #%zu #%zu", i, j); using std::swap; swap(al[i], al[j]); std::swap(is[i], is[j]); break; }
				case 9: { i = (size_t) choose(3); ident e = pool[(size_t) choose((int) pool.size())]; int how = choose(4); op("#%zu built from %d/%d in way %d", i, e.k, e.id, how); std::destroy_at(&al[i]); std::construct_at(&al[i], make<A>(e, how)); is[i] = e; break; }
			}
			check();
		}
		while (!bl.empty()) free_block(0);
		MC_CHECK(live_blocks == 0, "blocks leaked");
	}
	// containers: which allocator serves them follows the propagation policy
	template<typename A, template<typename...> typename Cont>
	static void container_ops(int depth) {
		live_blocks = 0;
		using V = Cont<int, A>;
		std::vector<ident> pool{{0, one}, {0, two}}; if (alts<A> > 1) pool = {{0, one}, {1, one}}; if (alts<A> > 2) pool = {{1, one}, {2, one}};
		// several alternatives propagate only if all of them do
		constexpr bool pc = std::allocator_traits<A>::propagate_on_container_copy_assignment::value, pm = std::allocator_traits<A>::propagate_on_container_move_assignment::value, ps = std::allocator_traits<A>::propagate_on_container_swap::value;
		{
			std::vector<std::optional<V>> v(3); std::vector<ident> is{pool[0], pool[1], pool[0]}; std::vector<std::vector<int>> ref(3);
			for (size_t i = 0; i < 3; ++i) v[i].emplace(make<A>(is[i], 0));
			for (int k = 0; k < 3; ++k) { v[0]->push_back(k); ref[0].push_back(k); } v[1]->push_back(9); ref[1].push_back(9);
			int next = 10;
			auto check = [&] { u64 h = 9; for (size_t i = 0; i < 3; ++i) { verify(v[i]->get_allocator(), is[i]); MC_CHECK(std::equal(v[i]->begin(), v[i]->end(), ref[i].begin(), ref[i].end()), "container %zu has the wrong contents", i); h = mix(h, (u64) (is[i].k * 100 + is[i].id)); h = mix(h, ref[i].size()); } state(h); };
			check();
			for (int d = 0; d < depth; ++d) {
				size_t i = (size_t) choose(3), j;
				switch (choose(7)) {
					case 0: op("push_back #%zu", i); v[i]->push_back(next); ref[i].push_back(next++); break;
					case 1: j = (size_t) choose(3); if (i == j) { d = depth; break; } op("#%zu copy-constructed from #%zu", j, i); { V t(*v[i]); v[j].reset(); v[j].emplace(std::move(t)); } is[j] = soccc(is[i]); ref[j] = ref[i]; break;
					case 2: j = (size_t) choose(3); if (i == j) { d = depth; break; } op("#%zu move-constructed from #%zu", j, i); v[j].reset(); v[j].emplace(std::move(*v[i])); is[j] = is[i]; ref[j] = ref[i]; v[i]->clear(); ref[i].clear(); break;
					case 3: j = (size_t) choose(3); op("#%zu = #%zu", j, i); *v[j] = *v[i]; if (pc) is[j] = is[i]; ref[j] = ref[i]; break;
					case 4: j = (size_t) choose(3); if (i == j) { d = depth; break; } op("#%zu = move(#%zu)", j, i); *v[j] = std::move(*v[i]); if (pm) is[j] = is[i]; ref[j] = ref[i]; v[i]->clear(); ref[i].clear(); break;
					case 5: j = (size_t) choose(3); if (i == j || (!ps && is[i] != is[j])) { d = depth; break; } op("swap #%zu #%zu", i, j); { using std::swap; swap(*v[i], *v[j]); } if (ps) std::swap(is[i], is[j]); std::swap(ref[i], ref[j]); break;
					case 6: op("clear #%zu", i); v[i]->clear(); ref[i].clear(); break;
				}
				check();
			}
		}
		MC_CHECK(live_blocks == 0, "%d blocks leaked by containers", live_blocks);
	}
};
int main(int argc, char **argv) {
	int d = THOROUGH ? 4 : 3, dc = THOROUGH ? 4 : 3;
	using T = cfg<true, true, true>; using N = cfg<false, false, false>; using X = cfg<true, false, true>; using Y = cfg<false, true, false>;
	std::vector<scenario> v;
#define ALL(NAME, CFG) \
	v.push_back({NAME "1,alloc", [=] { CFG::allocator_ops<CFG::P1<int>>(d); }, 1}); v.push_back({NAME "2,alloc", [=] { CFG::allocator_ops<CFG::P2<int>>(d); }, 1}); v.push_back({NAME "3,alloc", [=] { CFG::allocator_ops<CFG::P3<int>>(d); }, 1}); v.push_back({NAME "offset,alloc", [=] { CFG::allocator_ops<CFG::O<int>>(d); }, 1}); \
	v.push_back({NAME "1,vector", [=] { CFG::container_ops<CFG::P1<int>, std::vector>(dc); }}); v.push_back({NAME "2,vector", [=] { CFG::container_ops<CFG::P2<int>, std::vector>(dc); }}); v.push_back({NAME "3,vector", [=] { CFG::container_ops<CFG::P3<int>, std::vector>(dc); }}); v.push_back({NAME "2,list", [=] { CFG::container_ops<CFG::P2<int>, std::list>(dc); }}); v.push_back({NAME "offset,vector", [=] { CFG::container_ops<CFG::O<int>, std::vector>(dc); }});
	ALL("propagate-all:", T) ALL("propagate-none:", N) ALL("propagate-copy+swap:", X) ALL("propagate-move:", Y)
	using XM = cfg<true, true, true, true>; using E = cfg<true, false, false, false, true>; using EP = cfg<false, true, true, false, true>;
	ALL("mixed:", XM) ALL("stateless:", E) ALL("stateless-propagate:", EP)
	if (THOROUGH) v = split(v);
	return run(argc, argv, v);
}
