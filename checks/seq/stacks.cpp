// Containers over nested allocators: every sequence of container operations, with failing upstream allocations and small budgets.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/limit_allocator.hpp>
#include <dice/template-library/polymorphic_allocator.hpp>
#include <dice/template-library/pool_allocator.hpp>
#include <dice/template-library/static_string.hpp>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <scoped_allocator>
#include <unordered_map>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
#ifndef PART
#define PART 0
#endif
static int live_up; // blocks handed out by the upstream allocators
struct hdr { int which, id; size_t bytes, tsize; };
template<int K, int P, typename T> struct upal { // P: 1 = copies, 2 = moves, 4 = swaps take the allocator along
	using value_type = T;
	using propagate_on_container_copy_assignment = std::bool_constant<(P & 1) != 0>; using propagate_on_container_move_assignment = std::bool_constant<(P & 2) != 0>; using propagate_on_container_swap = std::bool_constant<(P & 4) != 0>; using is_always_equal = std::false_type;
	template<typename V> struct rebind { using other = upal<K, P, V>; };
	int id = 0; upal() = default; explicit upal(int i) : id(i) {}
	template<typename V> upal(upal<K, P, V> const &o) noexcept : id(o.id) {}
	T *allocate(size_t n) {
		if (n > 4000 || fault("upstream allocation fails")) throw std::bad_alloc{};
		auto *h = static_cast<hdr *>(std::malloc(sizeof(hdr) + 8 + n * sizeof(T))); *h = {K, id, n * sizeof(T), sizeof(T)}; ++live_up; return reinterpret_cast<T *>(h + 1); }
	void deallocate(T *p, size_t n) {
		hdr *h = reinterpret_cast<hdr *>(p) - 1; MC_CHECK(h->which == K && h->id == id, "memory from allocator %d/%d is freed through allocator %d/%d", h->which, h->id, K, id);
		MC_CHECK(h->bytes == n * sizeof(T) && h->tsize == sizeof(T), "a block of %zu bytes (elements of %zu) is freed as %zu elements of %zu bytes", h->bytes, h->tsize, n, sizeof(T)); h->which = -1; --live_up; std::free(h); }
	bool operator==(upal const &o) const noexcept { return id == o.id; }
};
static size_t small; // the budget of limiting allocators
inline constexpr size_t none = (size_t) -1;
// ---- the nestings; make(s) gives source s's allocator (0 or 1), limit(s) its budget
template<int P> struct nest {
	template<typename T> using U = upal<0, P, T>; template<typename T> using W = upal<1, P, T>;
	template<typename T> using L = dtl::limit_allocator<T, U>;
	template<typename T> using LU = dtl::limit_allocator<T, U, dtl::limit_allocator_syncness::unsync>;
	template<typename T> using Pool = dtl::pool_allocator<T, 8, 24, 64>;
	template<typename T> using UW = dtl::polymorphic_allocator<T, U, W>;
	template<typename T> using O = dtl::offset_ptr_stl_allocator<T, U>; template<typename T> using OW = dtl::offset_ptr_stl_allocator<T, W>;
	struct s0 { static constexpr char const *name = "limit"; static constexpr int p = P; template<typename T> using A = L<T>; static A<int> make(int s) { return A<int>(small, U<int>(s)); } static size_t limit(int) { return small; } };
	struct s1 { static constexpr char const *name = "poly"; static constexpr int p = P; template<typename T> using A = UW<T>; static A<int> make(int s) { return s ? A<int>(W<int>(1)) : A<int>(U<int>(0)); } static size_t limit(int) { return none; } };
	struct s2 { static constexpr char const *name = "limit<poly>"; static constexpr int p = P; template<typename T> using A = dtl::limit_allocator<T, UW>; static A<int> make(int s) { return s ? A<int>(small, W<int>(1)) : A<int>(small, std::in_place, U<int>(0)); } static size_t limit(int) { return small; } };
	struct s3 { static constexpr char const *name = "poly<limit,plain>"; static constexpr int p = P; template<typename T> using A = dtl::polymorphic_allocator<T, L, W>; static A<int> make(int s) { return s ? A<int>(W<int>(1)) : A<int>(std::in_place_type<L<int>>, small, U<int>(0)); } static size_t limit(int s) { return s ? none : small; } };
	struct s4 { static constexpr char const *name = "poly<limit,pool>"; static constexpr int p = P; template<typename T> using A = dtl::polymorphic_allocator<T, LU, Pool>; static A<int> make(int s) { return s ? A<int>(Pool<int>()) : A<int>(LU<int>(small, U<int>(0))); } static size_t limit(int s) { return s ? none : small; } };
	struct s5 { static constexpr char const *name = "limit<pool>"; static constexpr int p = 7; template<typename T> using A = dtl::limit_allocator<T, Pool>; static A<int> make(int) { return A<int>(small); } static size_t limit(int) { return small; } };
	struct s6 { static constexpr char const *name = "limit<limit>"; static constexpr int p = P; template<typename T> using A = dtl::limit_allocator<T, L>; static A<int> make(int s) { return A<int>(s ? small : small + 16, L<int>(s ? small + 16 : small, U<int>(s))); } static size_t limit(int) { return small; } };
	struct s7 { static constexpr char const *name = "offset<limit>"; static constexpr int p = P; template<typename T> using A = dtl::offset_ptr_stl_allocator<T, L>; static A<int> make(int s) { return A<int>(L<int>(small, U<int>(s))); } static size_t limit(int) { return small; } };
	struct s8 { static constexpr char const *name = "limit<offset>"; static constexpr int p = P; template<typename T> using A = dtl::limit_allocator<T, O>; static A<int> make(int s) { return A<int>(small, std::in_place, U<int>(s)); } static size_t limit(int) { return small; } };
	struct s9 { static constexpr char const *name = "poly<offset,offset>"; static constexpr int p = P; template<typename T> using A = dtl::polymorphic_allocator<T, O, OW>; static A<int> make(int s) { return s ? A<int>(OW<int>(W<int>(1))) : A<int>(O<int>(U<int>(0))); } static size_t limit(int) { return none; } };
	template<typename T> using UP = dtl::polymorphic_allocator<T, U, Pool>;
	struct s10 { static constexpr char const *name = "offset<poly<plain,pool>>"; static constexpr int p = P; template<typename T> using A = dtl::offset_ptr_stl_allocator<T, UP>; static A<int> make(int s) { return s ? A<int>(UP<int>(Pool<int>())) : A<int>(UP<int>(U<int>(0))); } static size_t limit(int) { return none; } };
	template<typename T> using LP = dtl::polymorphic_allocator<T, L, Pool>;
	struct s11 { static constexpr char const *name = "limit<poly<limit,pool>>"; static constexpr int p = P; template<typename T> using A = dtl::limit_allocator<T, LP, dtl::limit_allocator_syncness::unsync>; static A<int> make(int s) { return s ? A<int>(small, LP<int>(Pool<int>())) : A<int>(small + 8, LP<int>(L<int>(small, U<int>(0)))); } static size_t limit(int) { return small; } };
	struct s12 { static constexpr char const *name = "pool"; static constexpr int p = 7; template<typename T> using A = Pool<T>; static A<int> make(int) { return A<int>(); } static size_t limit(int) { return none; } };
	template<typename T> using Single = dtl::polymorphic_allocator<T, L>; template<typename T> using V2 = upal<2, P, T>;
	struct s14 { static constexpr char const *name = "poly<plain,limit,plain>"; static constexpr int p = P; template<typename T> using A = dtl::polymorphic_allocator<T, U, L, V2>; static A<int> make(int s) { return s ? A<int>(V2<int>(1)) : A<int>(std::in_place_index<1>, small, U<int>(0)); } static size_t limit(int s) { return s ? none : small; } };
	struct s15 { static constexpr char const *name = "poly<limit>"; static constexpr int p = P; template<typename T> using A = Single<T>; static A<int> make(int s) { return A<int>(std::in_place_index<0>, small, U<int>(s)); } static size_t limit(int) { return small; } };
	struct s16 { static constexpr char const *name = "poly<plain,plain> same kind"; static constexpr int p = P; template<typename T> using A = UW<T>; static A<int> make(int s) { return A<int>(W<int>(s)); } static size_t limit(int) { return none; } };
	struct s13 { static constexpr char const *name = "poly<poly>"; static constexpr int p = P; template<typename T> using A = dtl::polymorphic_allocator<T, UW, L>; static A<int> make(int s) { return s ? A<int>(UW<int>(W<int>(1))) : A<int>(L<int>(small, U<int>(0))); } static size_t limit(int s) { return s ? none : small; } };
};
// ---- an allocator on top that knows which requests the budget must grant
static size_t out_[2]; struct blk { void *p; size_t bytes; int src; }; static std::vector<blk> blocks;
template<typename S, typename T> struct spy {
	using inner = typename S::template A<T>; using tr = std::allocator_traits<inner>;
	using value_type = T; using pointer = typename tr::pointer; using const_pointer = typename tr::const_pointer; using void_pointer = typename tr::void_pointer; using const_void_pointer = typename tr::const_void_pointer; using size_type = size_t; using difference_type = std::ptrdiff_t;
	using propagate_on_container_copy_assignment = typename tr::propagate_on_container_copy_assignment; using propagate_on_container_move_assignment = typename tr::propagate_on_container_move_assignment; using propagate_on_container_swap = typename tr::propagate_on_container_swap; using is_always_equal = std::false_type;
	template<typename V> struct rebind { using other = spy<S, V>; };
	inner in; int src;
	spy(inner const &i, int s) : in(i), src(s) {}
	template<typename V> spy(spy<S, V> const &o) noexcept : in(o.in), src(o.src) {}
	pointer allocate(size_t n) {
		size_t lim = S::limit(src), want = n * sizeof(T); bool fits = lim == none || want <= lim - out_[src]; int f = E.faults_left; pointer p;
		try { p = tr::allocate(in, n); } catch (std::bad_alloc const &) { if (fits && E.faults_left == f) fail("a request for %zu bytes is refused although %zu of %zu are free", want, lim - out_[src], lim); throw; }
		if (!fits) fail("a request for %zu bytes is granted although only %zu of %zu are free", want, lim - out_[src], lim);
		harness h; out_[src] += want; blocks.push_back({(void *) std::to_address(p), want, src}); return p; }
	void deallocate(pointer p, size_t n) {
		{ harness h; bool ok = false; for (auto &b : blocks) if (b.p == (void *) std::to_address(p)) { MC_CHECK(b.src == src && b.bytes == n * sizeof(T), "a block of source %d goes back to source %d", b.src, src); out_[src] -= b.bytes; b = blocks.back(); blocks.pop_back(); ok = true; break; } MC_CHECK(ok, "an unknown block is freed"); }
		tr::deallocate(in, p, n); }
	spy select_on_container_copy_construction() const { return spy(tr::select_on_container_copy_construction(in), src); }
	bool operator==(spy const &o) const noexcept { return in == o.in; }
};
template<typename S> struct spied { static constexpr char const *name = S::name; static constexpr int p = S::p; template<typename T> using A = spy<S, T>; static A<int> make(int s) { return A<int>(S::make(s), s); } static size_t limit(int s) { return S::limit(s); } static constexpr bool exact = true; };
// ---- the containers
template<template<typename> typename A> struct c_vector { static constexpr char const *name = "vector"; static constexpr size_t room = 44; using V = std::vector<int, A<int>>; static void add(V &v, int x) { v.push_back(x); } static void drop(V &v) { v.erase(v.begin()); } static std::vector<int> get(V const &v) { return {v.begin(), v.end()}; } static void more(V &v, int x) { v.insert(v.begin(), {x, x + 1, x + 2}); v.shrink_to_fit(); } static void tail(std::vector<int> &r, int x) { r.insert(r.begin(), {x, x + 1, x + 2}); } };
template<template<typename> typename A> struct c_list { static constexpr char const *name = "list"; static constexpr size_t room = 100; using V = std::list<int, A<int>>; static void add(V &v, int x) { v.push_back(x); } static void drop(V &v) { v.pop_front(); } static std::vector<int> get(V const &v) { return {v.begin(), v.end()}; } static void more(V &v, int x) { v.insert(v.begin(), {x, x + 1, x + 2}); } static void tail(std::vector<int> &r, int x) { r.insert(r.begin(), {x, x + 1, x + 2}); } };
template<template<typename> typename A> struct c_flist { static constexpr char const *name = "forward_list"; static constexpr size_t room = 70; using V = std::forward_list<int, A<int>>; static void add(V &v, int x) { auto i = v.before_begin(); for (auto j = v.begin(); j != v.end(); ++j) i = j; v.insert_after(i, x); } static void drop(V &v) { v.pop_front(); } static std::vector<int> get(V const &v) { return {v.begin(), v.end()}; } static void more(V &v, int x) { v.insert_after(v.before_begin(), {x, x + 1, x + 2}); } static void tail(std::vector<int> &r, int x) { r.insert(r.begin(), {x, x + 1, x + 2}); } };
template<template<typename> typename A> struct c_deque { static constexpr char const *name = "deque"; static constexpr size_t room = 2400; using V = std::deque<int, A<int>>; static void add(V &v, int x) { v.push_back(x); } static void drop(V &v) { v.pop_front(); } static std::vector<int> get(V const &v) { return {v.begin(), v.end()}; } static void more(V &v, int x) { v.insert(v.begin(), {x, x + 1, x + 2}); } static void tail(std::vector<int> &r, int x) { r.insert(r.begin(), {x, x + 1, x + 2}); } };
template<template<typename> typename A> struct c_map { static constexpr char const *name = "map"; static constexpr size_t room = 170; using V = std::map<int, int, std::less<>, A<std::pair<int const, int>>>; static void add(V &v, int x) { v.emplace(x, x); } static void drop(V &v) { v.erase(v.begin()); } static std::vector<int> get(V const &v) { std::vector<int> r; for (auto &[a, b] : v) { MC_CHECK(a == b, "a wrong mapped value"); r.push_back(a); } return r; } static void more(V &v, int x) { v.insert({{x, x}, {x + 1, x + 1}, {x + 2, x + 2}}); } static void tail(std::vector<int> &r, int x) { r.insert(r.end(), {x, x + 1, x + 2}); } };
template<template<typename> typename A> struct c_umap { static constexpr char const *name = "unordered_map"; static constexpr size_t room = 240; using V = std::unordered_map<int, int, std::hash<int>, std::equal_to<>, A<std::pair<int const, int>>>; static void add(V &v, int x) { v.emplace(x, x); } static void drop(V &v) { int m = 1 << 20; for (auto &[a, b] : v) m = std::min(m, a); v.erase(m); } static std::vector<int> get(V const &v) { std::vector<int> r; for (auto &[a, b] : v) { MC_CHECK(a == b && v.count(a) == 1, "a wrong mapped value"); r.push_back(a); } std::sort(r.begin(), r.end()); return r; } static void more(V &v, int x) { v.insert({{x, x}, {x + 1, x + 1}, {x + 2, x + 2}}); } static void tail(std::vector<int> &r, int x) { r.insert(r.end(), {x, x + 1, x + 2}); } };
template<template<typename> typename A> struct c_string { static constexpr char const *name = "string"; static constexpr size_t room = 100; using V = std::basic_string<char, std::char_traits<char>, A<char>>; static void add(V &v, int x) { v.push_back((char) x); } static void drop(V &v) { v.erase(v.begin()); } static std::vector<int> get(V const &v) { return {v.begin(), v.end()}; } static void more(V &v, int x) { char t[] = {(char) x, (char) (x + 1), (char) (x + 2), 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n'}; v.insert(0, t, sizeof t); } static void tail(std::vector<int> &r, int x) { r.insert(r.begin(), {x, x + 1, x + 2, 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n'}); } };
// nested: the elements use the container's allocator, too
template<template<typename> typename A> struct c_nested { static constexpr char const *name = "vector of vectors"; static constexpr size_t room = 260; using I = std::vector<int, A<int>>; using V = std::vector<I, std::scoped_allocator_adaptor<A<I>>>; static void add(V &v, int x) { v.emplace_back(1u, x); } static void drop(V &v) { v.erase(v.begin()); } static std::vector<int> get(V const &v) { std::vector<int> r; for (auto &i : v) { MC_CHECK(i.get_allocator() == A<int>(v.get_allocator()), "an element does not use the container's allocator"); for (int x : i) r.push_back(x); } return r; } static void more(V &v, int x) { v.emplace_back(1u, x); v.emplace_back(1u, x + 1); } static void tail(std::vector<int> &r, int x) { r.insert(r.end(), {x, x + 1}); } };

template<typename S, template<template<typename> typename> typename CT> static void ops(int depth, bool tight) {
	using C = CT<S::template A>; using V = typename C::V; using VA = typename V::allocator_type; constexpr bool pcopy = (S::p & 1) != 0, pmove = (S::p & 2) != 0, pswap = (S::p & 4) != 0;
	static_assert(std::allocator_traits<typename S::template A<int>>::propagate_on_container_copy_assignment::value == pcopy && std::allocator_traits<typename S::template A<int>>::propagate_on_container_move_assignment::value == pmove && std::allocator_traits<typename S::template A<int>>::propagate_on_container_swap::value == pswap && !std::allocator_traits<typename S::template A<int>>::is_always_equal::value);
	live_up = 0; out_[0] = out_[1] = 0; blocks.clear(); small = tight ? C::room : 100000; bool keep_faults = !tight; if (!keep_faults) E.faults_left = 0;
	{
		sut sc; E.alloc_faults = false; std::optional<typename S::template A<int>> src[2]; for (int s = 0; s < 2; ++s) src[s].emplace(S::make(s));
		auto alloc = [&](int s) { return VA(typename std::allocator_traits<typename S::template A<int>>::template rebind_alloc<typename VA::value_type>(*src[s])); };
		std::optional<V> v[3]; int is[3] = {0, 0, 1}; std::vector<int> ref[3]; int next = 1; bool alive = true;
		auto guarded = [&](auto f) { E.alloc_faults = true; try { f(); E.alloc_faults = false; return true; } catch (std::bad_alloc const &) { E.alloc_faults = false; return false; } };
		auto check = [&] { harness q; u64 h = (u64) tight + 3; for (int i = 0; i < 3; ++i) { MC_CHECK(v[i].has_value(), "?"); for (int s = 0; s < 2; ++s) MC_CHECK((v[i]->get_allocator() == alloc(s)) == (is[i] == s), "container %d %s source %d's allocator", i, is[i] == s ? "does not use" : "uses", s); auto g = C::get(*v[i]); MC_CHECK(g == ref[i], "container %d has %zu elements, %zu expected, or wrong ones", i, g.size(), ref[i].size()); h = mix(h, (u64) is[i]); for (int x : g) h = mix(h, (u64) x); } state(h); };
		auto resync = [&](int i) { if constexpr (requires { typename C::I; }) std::erase_if(*v[i], [](auto const &x) { return x.empty(); }); harness q; ref[i] = C::get(*v[i]); for (int x : ref[i]) MC_CHECK(x >= 0 && x < 128, "a wrong element after a failed operation"); };
		// a failed assignment may or may not have taken over the allocator
		auto which = [&](int i, int j) { if (v[i]->get_allocator() == alloc(is[j])) is[i] = is[j]; };
		for (int i = 0; i < 3 && alive; ++i) { bool ok = false; int f = E.faults_left; E.faults_left = 0; ok = guarded([&] { v[i].emplace(alloc(is[i])); }); E.faults_left = f; alive = ok; }
		if (alive) { int f = E.faults_left; E.faults_left = 0; for (int i : {0, 2}) if (guarded([&] { C::add(*v[i], next); })) { harness q; ref[i].push_back(next++); } E.faults_left = f; check(); }
		for (int d = 0; d < depth && alive; ++d) {
			int k = choose(10), i = choose(3), j = (k >= 4 && k <= 8) ? choose(3) : i;
			switch (k) {
			case 0: op("add to #%d", i); if (guarded([&] { C::add(*v[i], next); })) { harness q; ref[i].push_back(next); } ++next; break;
			case 1: op("add several to #%d", i); if (guarded([&] { C::more(*v[i], next); })) { harness q; C::tail(ref[i], next); } else resync(i); next += 3; break;
			case 2: if (ref[i].empty()) { d = depth; break; } op("remove from #%d", i); C::drop(*v[i]); { harness q; ref[i].erase(ref[i].begin()); } break;
			case 3: op("clear #%d", i); v[i]->clear(); { harness q; ref[i].clear(); } break;
			case 4: op("#%d = #%d", i, j); if (guarded([&] { *v[i] = static_cast<V const &>(*v[j]); })) { harness q; if (pcopy) is[i] = is[j]; if (i != j) ref[i] = ref[j]; } else { which(i, j); resync(i); } break;
			case 5: if (i == j) { d = depth; break; } op("#%d = move(#%d)", i, j); if (guarded([&] { *v[i] = std::move(*v[j]); })) { harness q; if (pmove) is[i] = is[j]; ref[i] = ref[j]; } else { which(i, j); resync(i); } v[j]->clear(); { harness q; ref[j].clear(); } break;
			case 6: if (i >= j || (!pswap && is[i] != is[j])) { d = depth; break; } op("swap #%d #%d", i, j); { using std::swap; swap(*v[i], *v[j]); } { harness q; if (pswap) std::swap(is[i], is[j]); std::swap(ref[i], ref[j]); } break;
			case 7: if (i == j) { d = depth; break; } op("#%d = copy of #%d", i, j); if (guarded([&] { V t(*v[j]); v[i].reset(); v[i].emplace(std::move(t)); })) { harness q; is[i] = is[j]; ref[i] = ref[j]; } else if (!v[i]) alive = false; break;
			case 8: { int s = j == 2 ? 1 : 0; if (j == 1) { d = depth; break; } op("#%d = copy of #0 for source %d", i, s); if (guarded([&] { V t(static_cast<V const &>(*v[0]), alloc(s)); v[i].reset(); v[i].emplace(std::move(t), alloc(s)); })) { harness q; is[i] = s; if (i != 0) ref[i] = ref[0]; } else if (!v[i]) alive = false; break; }
			case 9: op("move #%d to the other source", i); { int s = 1 - is[i]; if (guarded([&] { V t(std::move(*v[i]), alloc(s)); v[i].reset(); v[i].emplace(std::move(t)); })) is[i] = s; else { if (!v[i]) alive = false; else resync(i); } } break;
			}
			if (alive && d < depth) check();
		}
		E.faults_left = 0; for (auto &x : v) x.reset();
		MC_CHECK(live_up == 0 && out_[0] == 0 && out_[1] == 0, "%d blocks leaked by containers", live_up);
		if (tight) for (int s = 0; s < 2; ++s) if (S::limit(s) != none) { // the whole budget is back
			using B = typename std::allocator_traits<typename S::template A<int>>::template rebind_alloc<char>; using BT = std::allocator_traits<B>; B b(*src[s]); size_t lim = S::limit(s);
			try { auto p = BT::allocate(b, lim); bool more = true; try { auto q = BT::allocate(b, 1); BT::deallocate(b, q, 1); } catch (std::bad_alloc const &) { more = false; } BT::deallocate(b, p, lim); MC_CHECK(!more, "the budget has grown"); } catch (std::bad_alloc const &) { fail("the budget is not back after all memory was returned"); }
			try { auto p = BT::allocate(b, lim + 1); BT::deallocate(b, p, lim + 1); fail("more than the budget is granted"); } catch (std::bad_alloc const &) {} }
	}
}
static std::vector<scenario> v;
template<typename S, template<template<typename> typename> typename CT> static void add(char const *how, int depth) {
	using C = CT<S::template A>;
	v.push_back({std::string(S::name) + how + "," + C::name, [=] { ops<S, CT>(depth, false); }, 1});
	v.push_back({std::string(S::name) + how + "," + C::name + ",budget", [=] { ops<spied<S>, CT>(depth, true); }, 0});
}
template<typename S, bool offset = false> static void all(char const *how) {
	int d = THOROUGH ? 3 : 2, deep = d + 1;
	add<S, c_vector>(how, deep);
	add<S, c_flist>(how, d); add<S, c_umap>(how, d); add<S, c_nested>(how, d); add<S, c_deque>(how, d);
	if constexpr (!offset) { add<S, c_list>(how, d); add<S, c_map>(how, d); add<S, c_string>(how, d); }
}
template<typename N> static void some(char const *how) { int d = THOROUGH ? 3 : 2; add<typename N::s0, c_vector>(how, d); add<typename N::s1, c_umap>(how, d); add<typename N::s3, c_list>(how, d); add<typename N::s7, c_vector>(how, d); add<typename N::s14, c_deque>(how, d); add<typename N::s15, c_flist>(how, d); add<typename N::s0, c_nested>(how, d); }
int main(int argc, char **argv) {
	[[maybe_unused]] typedef nest<0> N; [[maybe_unused]] typedef nest<7> Y; [[maybe_unused]] typedef nest<1> Co; [[maybe_unused]] typedef nest<2> Mo; [[maybe_unused]] typedef nest<4> Sw;
#if PART == 0
	all<N::s0>(""); all<Y::s0>("(p)");
#elif PART == 1
	all<N::s1>(""); all<Y::s1>("(p)");
#elif PART == 2
	all<N::s2>(""); all<Y::s2>("(p)");
#elif PART == 3
	all<N::s3>(""); all<Y::s3>("(p)");
#elif PART == 4
	all<N::s4>(""); all<Y::s4>("(p)");
#elif PART == 5
	all<N::s5>(""); all<N::s12>("");
#elif PART == 6
	all<N::s6>(""); all<Y::s6>("(p)");
#elif PART == 7
	all<N::s7, true>(""); all<Y::s7, true>("(p)"); all<N::s8, true>(""); all<Y::s8, true>("(p)");
#elif PART == 8
	all<N::s9, true>(""); all<Y::s9, true>("(p)"); all<N::s10, true>(""); all<Y::s10, true>("(p)");
#elif PART == 9
	all<N::s11>(""); all<Y::s11>("(p)");
#elif PART == 10
	all<N::s13>(""); all<Y::s13>("(p)");
#elif PART == 11
	all<N::s14>(""); all<Y::s14>("(p)");
#elif PART == 12
	all<N::s15>(""); all<Y::s15>("(p)"); all<N::s16>(""); all<Y::s16>("(p)");
#elif PART == 13
	some<Co>("(copy)"); some<Mo>("(move)"); some<Sw>("(swap)");
#endif
	return run(argc, argv, v);
}
