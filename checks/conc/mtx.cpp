// mutex / shared_mutex programs under the controlled scheduler: guard life cycles as enumerated operations.
#include <dice/template-library/mutex.hpp>
#include <dice/template-library/shared_mutex.hpp>
#include "../../engine/lin.hpp"
#include "payload.hpp"
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <new>
#include <optional>
#include <unistd.h>
#include <string>
#include <type_traits>
#include <vector>
namespace dtl = dice::template_library;
#ifndef SHARED
#define SHARED 0
#endif
#ifndef LOCKT
#define LOCKT 0
#endif
// a user-defined lock type: only what the standard requires of a Lockable / SharedLockable
struct user_lock {
	std::shared_mutex m; int held = 0, shared = 0;
	void lock() { m.lock(); if (held) mcrt_fail("lock() on a held lock"); held = 1; }
	bool try_lock() { if (!m.try_lock()) return false; if (held) mcrt_fail("try_lock() succeeded on a held lock"); held = 1; return true; }
	void unlock() { if (!held) mcrt_fail("unlock() of a lock that is not held"); held = 0; m.unlock(); }
#if SHARED
	void lock_shared() { m.lock_shared(); }
	bool try_lock_shared() { return m.try_lock_shared(); }
	void unlock_shared() { m.unlock_shared(); }
#endif
};
// a user-defined lock that a thread may lock several times
struct rec_lock {
	std::mutex m; std::condition_variable c; int depth = 0, readers = 0, owner = -1;
	bool take() { int me = mcrt_self(); if (readers || (depth && owner != me)) return false; owner = me; ++depth; return true; }
	void lock() { std::unique_lock l{m}; c.wait(l, [&] { return take(); }); }
	bool try_lock() { std::unique_lock l{m}; return take(); }
	void unlock() { { std::unique_lock l{m}; if (!depth) mcrt_fail("unlock() of a lock that is not held"); --depth; } c.notify_all(); }
#if SHARED
	void lock_shared() { std::unique_lock l{m}; c.wait(l, [&] { return !depth; }); ++readers; }
	bool try_lock_shared() { std::unique_lock l{m}; if (depth) return false; ++readers; return true; }
	void unlock_shared() { { std::unique_lock l{m}; if (!readers) mcrt_fail("unlock_shared() of a lock that is not held"); --readers; } c.notify_all(); }
#endif
};
struct value { int n = 0; item it; value() = default; explicit value(int v) : n(v), it(v) {} value(int a, int b) : n(a + b), it(a + b) {} };
#if SHARED
using lock_t = std::conditional_t<LOCKT == 0, std::shared_mutex, std::conditional_t<LOCKT == 1, user_lock, std::conditional_t<LOCKT == 3, rec_lock, std::shared_timed_mutex>>>;
using mtx = std::conditional_t<LOCKT == 0, dtl::shared_mutex<value>, dtl::shared_mutex<value, lock_t>>;
#else
using lock_t = std::conditional_t<LOCKT == 0, std::mutex, std::conditional_t<LOCKT == 1, user_lock, std::conditional_t<LOCKT == 3, rec_lock, std::timed_mutex>>>;
using mtx = std::conditional_t<LOCKT == 0, dtl::mutex<value>, dtl::mutex<value, lock_t>>;
#endif
using guard = decltype(std::declval<mtx &>().lock());
static_assert(std::is_same_v<decltype(*std::declval<guard &>()), value &>);
static_assert(!std::is_copy_constructible_v<guard> && !std::is_copy_assignable_v<guard> && !std::is_copy_constructible_v<mtx> && !std::is_move_constructible_v<mtx>);
#if SHARED
using sguard = decltype(std::declval<mtx const &>().lock_shared());
static_assert(std::is_same_v<decltype(*std::declval<sguard &>()), value const &> && std::is_same_v<decltype(std::declval<sguard &>().operator->()), value const *>);
static_assert(!std::is_copy_constructible_v<sguard>);
#endif

// operations; m: which of two mutexes, s: which of the thread's two guard slots
enum op { LOCK, TRY, REL, SLOCK, STRY, SREL, MVC, MVA, SWP, INC, GET, HOLD };
struct step { int op, m, s; };
struct script { std::string name; std::vector<std::vector<step>> th; };
alignas(mtx) static unsigned char storage[2][sizeof(mtx)];
static mtx *mx[2];
// "hold": the thread keeps its guards until all other threads are done, so that a try-lock that waits for them never returns
static struct { std::mutex m; std::condition_variable c; int done = 0; } rest_;
static bool has_hold;
static int incs[2]; // increments per mutex, only touched under the guard

struct spec {
	int wr[2] = {0, 0}, rd[2] = {0, 0}, owner[2] = {-1, -1};
	auto operator<=>(spec const &) const = default;
	bool busy(int m, mcrt::event const &e) const { return rd[m] || (wr[m] && !(LOCKT == 3 && owner[m] == e.tid)); }
	std::vector<spec> next(mcrt::event const &e) const {
		spec n = *this; int m = (int) e.arg;
		switch (e.op) {
			case LOCK: if (busy(m, e)) return {}; ++n.wr[m]; n.owner[m] = e.tid; return {n};
			case TRY: if (!e.res) return busy(m, e) ? std::vector<spec>{n} : std::vector<spec>{}; if (busy(m, e)) return {}; ++n.wr[m]; n.owner[m] = e.tid; return {n};
			case REL: if (!wr[m]) return {}; if (--n.wr[m] == 0) n.owner[m] = -1; return {n};
			case SLOCK: if (wr[m]) return {}; ++n.rd[m]; return {n};
			case STRY: if (!e.res) return wr[m] ? std::vector<spec>{n} : std::vector<spec>{}; if (wr[m]) return {}; ++n.rd[m]; return {n};
			case SREL: if (!rd[m]) return {}; --n.rd[m]; return {n};
		}
		return {};
	}
};

template<typename G>
struct slots {
	std::optional<G> g[2]; int own[2] = {-1, -1}; // which mutex the guard in the slot holds
	static constexpr bool excl = std::is_same_v<G, guard>;
	void rel(int s) { if (!g[s]) return; if (own[s] >= 0) { int id = mcrt_call(excl ? REL : SREL, own[s]); g[s].reset(); mcrt_ret(id, 0, 0); } else g[s].reset(); own[s] = -1; }
	template<typename F> void take(int o, int m, int s, F f) { if (g[s]) { fprintf(stderr, "bad script: slot in use\n"); _exit(74); } int id = mcrt_call(o, m); bool ok = f(g[s]); if (ok) own[s] = m; mcrt_ret(id, ok, 0); access(s); }
	void access(int s) const {
		if (!g[s] || own[s] < 0) return;
		value const *v = &**g[s]; if (g[s]->operator->() != v) mcrt_fail("a guard's -> and * reach different objects");
		auto const *base = reinterpret_cast<unsigned char const *>(v);
		if (base < storage[own[s]] || base >= storage[own[s]] + sizeof(mtx)) mcrt_fail("a guard reaches a value that its mutex does not hold");
	}
	void step_(step x) {
		switch (x.op) {
			case REL: case SREL: rel(x.s); break;
			case MVC: if (g[x.s] && !g[1 - x.s]) { g[1 - x.s].emplace(std::move(*g[x.s])); own[1 - x.s] = own[x.s]; own[x.s] = -1; g[x.s].reset(); access(1 - x.s); } break;
			case MVA: if (g[x.s] && g[1 - x.s]) { // the target's old lock is released, the source's is transferred
				int o = own[1 - x.s];
				if (o >= 0) { int id = mcrt_call(excl ? REL : SREL, o); *g[1 - x.s] = std::move(*g[x.s]); mcrt_ret(id, 0, 0); } else *g[1 - x.s] = std::move(*g[x.s]);
				own[1 - x.s] = own[x.s]; own[x.s] = -1; access(1 - x.s);
				break;
			}
			break;
			case SWP: if (g[0] && g[1]) { swap(*g[0], *g[1]); std::swap(own[0], own[1]); access(0); access(1); } break;
		}
	}
};
static void body(int tid) {
	slots<guard> w;
#if SHARED
	slots<sguard> r;
#endif
	for (step x : static_cast<script const *>(mcrt_user())->th[tid - 1]) switch (x.op) {
		case LOCK: w.take(LOCK, x.m, x.s, [&](auto &g) { g.emplace(mx[x.m]->lock()); return true; }); break;
		case TRY: w.take(TRY, x.m, x.s, [&](auto &g) { g = mx[x.m]->try_lock(); return g.has_value(); }); break;
		case HOLD: { std::unique_lock l{rest_.m}; int all = (int) static_cast<script const *>(mcrt_user())->th.size(); rest_.c.wait(l, [&] { return rest_.done == all - 1; }); break; }
		case INC: if (w.g[x.s] && w.own[x.s] >= 0) { value &v = **w.g[x.s]; int o = v.n; v.it = item(o + 1); v.n = o + 1; ++incs[w.own[x.s]]; if (v.it.get() != o + 1) mcrt_fail("a value under an exclusive guard was changed by someone else"); } break;
#if SHARED
		case SLOCK: r.take(SLOCK, x.m, x.s, [&](auto &g) { g.emplace(static_cast<mtx const *>(mx[x.m])->lock_shared()); return true; }); break;
		case STRY: r.take(STRY, x.m, x.s, [&](auto &g) { g = static_cast<mtx const *>(mx[x.m])->try_lock_shared(); return g.has_value(); }); break;
		case GET: if (r.g[x.s] && r.own[x.s] >= 0) { value const &v = **r.g[x.s]; int o = v.n; if (v.it.get() != o || v.n != o) mcrt_fail("a reader saw a half-written value"); } break;
		case SREL: r.step_(x); break;
#endif
		default:
			w.step_(x);
#if SHARED
			if (x.op != REL) r.step_(x);
#endif
	}
	for (int s = 0; s < 2; ++s) {
		w.rel(s);
#if SHARED
		r.rel(s);
#endif
	}
	if (has_hold) { { std::unique_lock l{rest_.m}; ++rest_.done; } rest_.c.notify_all(); }
}
static void setup() { std::construct_at(&rest_); has_hold = static_cast<script const *>(mcrt_user())->name.find("hold") != std::string::npos; mx[0] = ::new (storage[0]) mtx(std::in_place, 40, 2); mx[1] = ::new (storage[1]) mtx(value(42)); incs[0] = incs[1] = 0; }
static void finish() {
	for (int m = 0; m < 2; ++m) {
		int id = mcrt_call(TRY, m);
		auto g = mx[m]->try_lock(); mcrt_ret(id, g.has_value(), 0);
		if (!g) mcrt_fail("try_lock fails although no guard exists");
		if ((*g)->n != 42 + incs[m] || (**g).it.get() != 42 + incs[m]) mcrt_fail("the protected value is %d, %d expected", (*g)->n, 42 + incs[m]);
		id = mcrt_call(REL, m); g.reset(); mcrt_ret(id, 0, 0);
#if SHARED
		id = mcrt_call(STRY, m); auto a = mx[m]->try_lock_shared(); mcrt_ret(id, a.has_value(), 0);
		id = mcrt_call(STRY, m); auto b = mx[m]->try_lock_shared(); mcrt_ret(id, b.has_value(), 0);
		id = mcrt_call(SREL, m); a.reset(); mcrt_ret(id, 0, 0);
		id = mcrt_call(SREL, m); b.reset(); mcrt_ret(id, 0, 0);
#endif
		mx[m]->~mtx();
	}
	if (mcrt_live() != 0) mcrt_fail("%d heap blocks still live", mcrt_live());
}
static bool check(mcrt::event const *h, int n) { return lin::linearizable(h, n, spec{}); }
static char const *blocked(mcrt::event const *h, int n) {
	int wr[2] = {0, 0}, rd[2] = {0, 0};
	for (int i = 0; i < n; ++i) if (h[i].ret_t >= 0) { int m = (int) h[i].arg; switch (h[i].op) { case LOCK: ++wr[m]; break; case TRY: wr[m] += (int) h[i].res; break; case REL: --wr[m]; break; case SLOCK: ++rd[m]; break; case STRY: rd[m] += (int) h[i].res; break; case SREL: --rd[m]; break; } }
	for (int i = 0; i < n; ++i) if (h[i].ret_t < 0) { int m = (int) h[i].arg; switch (h[i].op) {
		case LOCK: if (!wr[m] && !rd[m]) return "lock() is blocked although no guard exists"; break;
		case SLOCK: if (!wr[m]) return "lock_shared() is blocked although no exclusive guard exists"; break;
		default: return "an operation that never blocks is blocked";
	} }
	return nullptr;
}
static script parse(std::string const &t) {
	script s{t, {}}; size_t i = 0;
	static std::vector<std::pair<char const *, int>> const names{{"lock", LOCK}, {"try", TRY}, {"rel", REL}, {"slock", SLOCK}, {"stry", STRY}, {"srel", SREL}, {"mvc", MVC}, {"mva", MVA}, {"swp", SWP}, {"inc", INC}, {"get", GET}, {"hold", HOLD}};
	while (i < t.size()) {
		if (t[i] == '_') { ++i; continue; }
		size_t b = i; while (i < t.size() && t[i] != '_') ++i; std::string w = t.substr(b, i - b);
		if (w == "T") { s.th.emplace_back(); continue; }
		size_t l = 0; while (l < w.size() && !isdigit((unsigned char) w[l])) ++l; std::string nm = w.substr(0, l); bool ok = false;
		for (auto [n, o] : names) if (nm == n) { int d1 = l < w.size() ? w[l] - '0' : 0, d2 = l + 1 < w.size() ? w[l + 1] - '0' : d1; bool two = o == LOCK || o == TRY || o == SLOCK || o == STRY; s.th.back().push_back({o, two ? d1 : 0, two ? d2 : d1}); ok = true; }
		if (!ok) { fprintf(stderr, "bad word %s\n", w.c_str()); _exit(74); }
	}
	return s;
}
int main(int argc, char **argv) {
	std::vector<script> scripts; std::vector<mcrt::program> progs; char const *file = nullptr; std::vector<char *> rest{argv[0]};
	for (int i = 1; i < argc; ++i) { if (!strcmp(argv[i], "--scripts")) file = argv[++i]; else rest.push_back(argv[i]); }
	FILE *f = fopen(file, "r"); if (!f) { perror(file); return 74; }
	char line[1024]; while (fgets(line, sizeof line, f)) { std::string l(line); while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back(); if (!l.empty()) scripts.push_back(parse(l)); }
	fclose(f);
	for (auto &s : scripts) { mcrt::program p{}; p.name = s.name.c_str(); p.nthreads = (int) s.th.size(); p.setup = setup; p.thread = body; p.finish = finish; p.check = check; p.blocked = blocked; p.user = &s; progs.push_back(p); }
	return mcrt_main((int) rest.size(), rest.data(), progs.data(), (int) progs.size());
}
