// inplace_polymorphic: every sequence of construction, emplacement, copy, move, assignment over three objects, with
// every construction that may fail failing.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/inplace_polymorphic.hpp>
#include <memory>
#include <optional>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
static int thrown;
static void may_throw(char const *what) { if (fault(what)) { ++thrown; throw boom{}; } }
// NC/NM: copying/moving is noexcept; TRIV: trivially destructible without a virtual destructor; CP/MV: copyable/movable
struct no {};
template<bool V> struct vdtor { virtual ~vdtor() = default; };
template<> struct vdtor<false> {};
template<typename B, bool N> struct copy_if { virtual void copy_to(B *) const noexcept(N) = 0; };
template<typename B, bool N> struct move_if { virtual void move_to(B *) noexcept(N) = 0; };
#define BASE(NAME, DTOR, COPY, MOVE) struct NAME { virtual int kind() const = 0; virtual int value() const = 0; virtual void set(int) = 0; virtual void const *self() const = 0; COPY MOVE DTOR }
BASE(full, virtual ~full() = default;, virtual void copy_to(full *) const = 0;, virtual void move_to(full *) = 0;);
BASE(safe, virtual ~safe() = default;, virtual void copy_to(safe *) const noexcept = 0;, virtual void move_to(safe *) noexcept = 0;);
BASE(mixed, virtual ~mixed() = default;, virtual void copy_to(mixed *) const = 0;, virtual void move_to(mixed *) noexcept = 0;);
#pragma GCC diagnostic ignored "-Wnon-virtual-dtor"
BASE(triv, , virtual void copy_to(triv *) const = 0;, virtual void move_to(triv *) = 0;);
BASE(trivsafe, , virtual void copy_to(trivsafe *) const noexcept = 0;, virtual void move_to(trivsafe *) noexcept = 0;);
BASE(copyonly, virtual ~copyonly() = default;, virtual void copy_to(copyonly *) const = 0;, );
BASE(moveonly, virtual ~moveonly() = default;, , virtual void move_to(moveonly *) = 0;);
BASE(neither, virtual ~neither() = default;, , );
template<typename B> constexpr bool is_triv = std::is_trivially_destructible_v<B>;
template<typename B> constexpr bool has_copy = requires(B const &b, B *d) { b.copy_to(d); };
template<typename B> constexpr bool has_move = requires(B &b, B *d) { b.move_to(d); };
template<typename B> constexpr bool safe_copy = [] { if constexpr (has_copy<B>) return noexcept(std::declval<B const &>().copy_to((B *) nullptr)); else return false; }();
template<typename B> constexpr bool safe_move = [] { if constexpr (has_move<B>) return noexcept(std::declval<B &>().move_to((B *) nullptr)); else return false; }();
// the state every derived class carries; owning memory unless trivially destructible
template<typename B, int K, bool OWN = !is_triv<B>> struct core {
	int v; int *own;
	explicit core(int x) : v(x) { may_throw("construction"); own = new int(x); L.add(this, K); }
	core(core const &o) : v(o.v) { L.use(&o, K); if constexpr (!safe_copy<B>) may_throw("copy"); own = o.own ? new int(*o.own) : nullptr; L.add(this, K); }
	core(core &&o) : v(o.v) { L.use(&o, K); if constexpr (!safe_move<B>) may_throw("move"); own = o.own; o.own = nullptr; o.v = -1; L.add(this, K); }
	~core() { L.del(this, K); delete own; }
	int get() const { L.use(this, K); MC_CHECK((own ? *own : -1) == v, "an object is torn"); return v; }
	void put(int x) { L.use(this, K); delete own; own = new int(x); v = x; }
};
template<typename B, int K> struct core<B, K, false> {
	int v, w;
	explicit core(int x) : v(x) { may_throw("construction"); w = ~x; }
	core(core const &o) : v(o.v) { if constexpr (!safe_copy<B>) may_throw("copy"); w = o.w; }
	core(core &&o) : v(o.v) { if constexpr (!safe_move<B>) may_throw("move"); w = o.w; o.v = -1; o.w = 0; }
	int get() const { MC_CHECK(w == ~v, "an object is torn"); return v; }
	void put(int x) { v = x; w = ~x; }
};
template<typename B, int K, size_t PAD, size_t AL> struct D : B {
	core<B, K> c; alignas(AL) unsigned char pad[PAD];
	D() : c(0) { fill(); }
	explicit D(int x) : c(x) { fill(); }
	D(int a, int b) noexcept(false) : c(a * 100 + b) { fill(); }
	D(D const &o) : B(o), c(o.c) { o.ok(); fill(); }
	D(D &&o) : B(std::move(o)), c(std::move(o.c)) { o.ok(); fill(); }
	void fill() { MC_CHECK(reinterpret_cast<std::uintptr_t>(this) % alignof(D) == 0, "an object is misaligned"); for (size_t i = 0; i < PAD; ++i) pad[i] = (unsigned char) (K * 16 + (int) i); }
	void ok() const { for (size_t i = 0; i < PAD; ++i) MC_CHECK(pad[i] == (unsigned char) (K * 16 + (int) i), "an object is overwritten"); }
	int kind() const override { return K; }
	int value() const override { ok(); return c.get(); }
	void set(int x) override { c.put(x); }
	void const *self() const override { return this; }
	void copy_to(B *d) const noexcept(safe_copy<B>) { static_cast<void>(static_cast<B const *>(this)); new (static_cast<void *>(d)) D(*this); }
	void move_to(B *d) noexcept(safe_move<B>) { new (static_cast<void *>(d)) D(std::move(*this)); }
};
template<typename B> struct H {
	using A1 = D<B, 1, 1, 1>; using A2 = D<B, 2, 70, 1>; using A3 = D<B, 3, 8, 32>;
	using P = dtl::inplace_polymorphic<B, A1, A2, A3>;
	static_assert(std::is_copy_constructible_v<P> == has_copy<B> && std::is_copy_assignable_v<P> == has_copy<B>);
	static_assert(std::is_move_constructible_v<P> == (has_move<B> || has_copy<B>));
	struct guarded { unsigned char lo[16]; std::optional<P> p; unsigned char hi[16]; guarded() { memset(lo, 0x5a, 16); memset(hi, 0x5a, 16); } void ok() const { for (int i = 0; i < 16; ++i) MC_CHECK(lo[i] == 0x5a && hi[i] == 0x5a, "memory next to the object is overwritten"); } };
	struct st { int kind, v; bool operator==(st const &) const = default; };
	static void verify(size_t i, P &p, st const &e) {
		P const &c = p; MC_CHECK(c.valueless_by_exception() == (e.kind == 0), "#%zu %s valueless", i, e.kind ? "is" : "is not");
		if (e.kind == 0) {
			static int probes; if (++probes > 300) return;
			auto bad = [](auto &&f) { try { f(); return false; } catch (std::bad_variant_access const &) { return true; } };
			MC_CHECK(bad([&] { (void) p.get(); }) && bad([&] { (void) c.get(); }) && bad([&] { (void) *p; }) && bad([&] { (void) *c; }) && bad([&] { (void) p->value(); }) && bad([&] { (void) c->value(); }), "#%zu: a valueless object is accessed", i);
			return;
		}
		MC_CHECK(p.get().kind() == e.kind && c->kind() == e.kind, "#%zu holds kind %d, expected %d", i, p.get().kind(), e.kind);
		int v = c.get().value(); MC_CHECK(v == e.v && (*p).value() == e.v && (*c).value() == e.v && p->value() == e.v, "#%zu holds %d, expected %d", i, v, e.v);
		MC_CHECK(&p.get() == &*c && &*p == p.operator->() && c.operator->() == &c.get() && p->self() >= (void *) &p && p->self() < (void *) (&p + 1), "#%zu: the accessors disagree", i);
	}
	static void body(int depth) {
		L.reset(); int f0 = E.faults_left; E.faults_left = 0;
		{
			sut in; guarded g[3]; st m[3] = {{1, 0}, {2, 7}, {3, 8}};
			g[0].p.emplace(); g[1].p.emplace(std::in_place_type<A2>, 7); g[2].p.emplace(std::in_place_type<A3>, 8);
			auto look = [&](size_t i) { P &p = *g[i].p; m[i] = p.valueless_by_exception() ? st{0, 0} : st{p->kind(), p->value()}; };
			for (int d = 0; d <= depth; ++d) {
				u64 h = 1; int live = 0; for (size_t i = 0; i < 3; ++i) { verify(i, *g[i].p, m[i]); g[i].ok(); h = mix(h, (u64) (m[i].kind * 1000 + m[i].v)); live += m[i].kind != 0; } state(h);
				if constexpr (!is_triv<B>) MC_CHECK(L.v.size() == (size_t) live, "%zu derived objects are alive, %d are held", L.v.size(), live);
				if (d == depth) break;
				size_t i = (size_t) choose(3), j = i; int o = choose(7); if (o >= 1 && o <= 4) j = (size_t) choose(3);
				st before[3] = {m[0], m[1], m[2]}; int t0 = thrown; bool boomed = false, stop = false, tmp = false; E.faults_left = f0;
				if ((o == 1 || o == 3) ? !has_copy<B> : (o == 2 || o == 4) ? !has_move<B> && !has_copy<B> : false) break;
				bool moves = has_move<B>;
				try {
					switch (o) {
						case 0: { int k = choose(4), x = 10 + d; op("#%zu emplace, form %d", i, k); P &p = *g[i].p; if (k == 0) p.template emplace<A1>(x), m[i] = {1, x}; else if (k == 1) p.template emplace<A2>(x), m[i] = {2, x}; else if (k == 2) p.template emplace<A3>(x, 3), m[i] = {3, x * 100 + 3}; else p.template emplace<A2>(), m[i] = {2, 0}; break; }
						case 1: if constexpr (has_copy<B>) { if (i == j) { stop = true; break; } op("#%zu copy of #%zu", j, i); tmp = true; { P n(*g[i].p); E.faults_left = 0; verify(9, n, m[i]); if (m[i].kind) { n->set(99); verify(i, *g[i].p, m[i]); } } g[j].p.reset(); g[j].p.emplace(*g[i].p); m[j] = m[i]; } break;
						case 2: if constexpr (has_move<B> || has_copy<B>) { if (i == j) { stop = true; break; } op("#%zu moved from #%zu", j, i); tmp = true; { guarded n; n.p.emplace(std::move(*g[i].p)); E.faults_left = 0; verify(9, *n.p, before[i]); n.ok(); look(i); } MC_CHECK(m[i] == st(before[i].kind, before[i].kind ? (moves ? -1 : before[i].v) : 0), "a moved-from object changed"); } break;
						case 3: if constexpr (has_copy<B>) { op("#%zu = #%zu", j, i); P &r = (*g[j].p = *g[i].p); MC_CHECK(&r == &*g[j].p, "assignment returns something else"); m[j] = m[i]; } break;
						case 4: if constexpr (has_move<B> || has_copy<B>) { if (i == j) { stop = true; break; } op("#%zu = move(#%zu)", j, i); P &r = (*g[j].p = std::move(*g[i].p)); MC_CHECK(&r == &*g[j].p, "assignment returns something else"); m[j] = before[i]; look(i); MC_CHECK(m[i] == st(before[i].kind, before[i].kind ? (moves ? -1 : before[i].v) : 0), "a moved-from object changed"); } break;
						case 5: { int k = choose(4), x = 20 + d; op("construct, form %d", k); tmp = true; guarded n; if (k == 0) n.p.emplace(); else if (k == 1) n.p.emplace(std::in_place_type<A1>, x); else if (k == 2) n.p.emplace(std::in_place_type<A2>, x, 4); else n.p.emplace(std::in_place_type<A3>, x); E.faults_left = 0; verify(9, *n.p, k == 0 ? st{1, 0} : k == 1 ? st{1, x} : k == 2 ? st{2, x * 100 + 4} : st{3, x}); n.ok(); break; }
						case 6: if (m[i].kind == 0) { stop = true; break; } op("#%zu: write through the base", i); (*g[i].p)->set(30 + d); m[i].v = 30 + d; break;
					}
				} catch (boom const &) { boomed = true; }
				E.faults_left = 0; MC_CHECK(boomed == (thrown != t0), boomed ? "an exception out of nothing" : "an exception is swallowed"); f0 -= boomed;
				if (boomed) { op("... failed"); for (size_t k = 0; k < 3; ++k) { bool target = !tmp && k == (o == 0 ? i : j); look(k); MC_CHECK(m[k] == (target ? st{0, 0} : before[k]), "#%zu is of kind %d after a failed operation, expected %d", k, m[k].kind, target ? 0 : before[k].kind); } }
				if (stop) break;
			}
			E.faults_left = 0;
		}
		L.expect(0);
	}
};
int main(int argc, char **argv) {
	int d = (THOROUGH ? 4 : 3) + DEPTH; std::vector<scenario> v;
#define ONE(B, N) v.push_back({#B, [=] { H<B>::body(N); }, THOROUGH ? 3 : 2})
	ONE(full, d); ONE(safe, d); ONE(mixed, d); ONE(triv, d); ONE(trivsafe, d); ONE(copyonly, d); ONE(moveonly, d); ONE(neither, d);
	if (DEPTH == 0) v = split(v);
	return run(argc, argv, v);
}
