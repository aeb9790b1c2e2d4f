// channel / exchange_channel programs under the controlled scheduler.
#include <dice/template-library/channel.hpp>
#include <dice/template-library/exchange_channel.hpp>
#include "../../engine/lin.hpp"
#include "payload.hpp"
#include <cstdio>
#include <cstring>
#include <new>
#include <string>
#include <type_traits>
#include <vector>
namespace dtl = dice::template_library;
#ifndef EXCHANGE
#define EXCHANGE 0
#endif
#ifndef THROWING
#define THROWING 0
#endif
// 0: nothing throws, 1: construction and assignment may, 2: assignment only, 3: construction only
using T = item_t<THROWING == 1 || THROWING == 3, THROWING == 1 || THROWING == 2>;
using chan_t = std::conditional_t<EXCHANGE, dtl::exchange_channel<T>, dtl::channel<T>>;

enum op { PUSH, PUSHM, EMPL, TPUSH, TPUSHM, TEMPL, POP, TPOP, CLOSE, CLOSED, ITER, DRAIN, READFLAG, ITERC, ITNEXT };
struct step { int op; int v; };
struct script { std::string name; int cap; std::vector<std::vector<step>> th; int pre; bool leave_open; bool flag = false; };

alignas(chan_t) static unsigned char storage[sizeof(chan_t)];
static chan_t *ch;
static int plain_flag; // written before close(), read after closed() was observed

struct spec {
	int cap; bool closed = false; std::vector<long> q; bool stale = false;
	auto operator<=>(spec const &) const = default;
	std::vector<spec> next(mcrt::event const &e) const {
		spec n = *this;
		switch (e.op) {
			case PUSH: case PUSHM: case EMPL:
				if (e.res == -2) { if (EXCHANGE) { spec m = n; m.q.clear(); return {n, m}; } return {n}; }
				if (e.res == 0) return closed ? std::vector<spec>{n} : std::vector<spec>{};
				if (closed) return {};
				if (EXCHANGE) n.q.assign(1, e.arg); else { if ((int) q.size() >= cap) return {}; n.q.push_back(e.arg); }
				return {n};
			case TPUSH: case TPUSHM: case TEMPL:
				if (e.res == -2) return {n};
				if (e.res == 0) return closed || (int) q.size() >= cap ? std::vector<spec>{n} : std::vector<spec>{};
				if (closed || (int) q.size() >= cap) return {};
				n.q.push_back(e.arg); return {n};
			case POP:
				if (e.res == -2) return {n};
				if (e.res == -1) return closed && q.empty() ? std::vector<spec>{n} : std::vector<spec>{};
				if (q.empty() || q.front() != e.res) return {};
				n.q.erase(n.q.begin()); return {n};
			case TPOP:
				if (e.res == -2) return {n};
				if (e.res == -1) return q.empty() ? std::vector<spec>{n} : std::vector<spec>{};
				if (q.empty() || q.front() != e.res) return {};
				n.q.erase(n.q.begin()); return {n};
			case ITNEXT: // like a receive; if the element throws on its way into the iterator it may be gone
				if (e.res == -2) { if (q.empty()) return {n}; spec m = n; m.q.erase(m.q.begin()); return {n, m}; }
				if (e.res == -1) return closed && q.empty() ? std::vector<spec>{n} : std::vector<spec>{};
				if (q.empty() || q.front() != e.res) return {};
				n.q.erase(n.q.begin()); return {n};
			case CLOSE: n.closed = true; return {n};
			case CLOSED: if (stale && e.res == 0) return {n}; /* an unordered observer may see the old value */
				return e.res == (long) closed ? std::vector<spec>{n} : std::vector<spec>{};
			case READFLAG: return {n};
		}
		return {};
	}
};

static void too_many(int &n) { if (++n > 14) mcrt_fail("more elements are delivered than were ever sent"); }
static long decode(std::optional<T> &o) { return o ? o->get() : -1; }
// iteration in which iterators are copied, moved and assigned on the way; exceptions of the element type reach this code
template<typename G> static void iterate_with_copies(G guarded) {
	using iter = decltype(ch->begin()); std::optional<iter> it;
	auto val = [](iter const &i) { return i == std::default_sentinel ? -1l : (i->get() == (*i).get() ? (long) (*i).get() : -9l); };
	auto same = [&](iter const &i, long v, char const *w) { if (val(i) != v) mcrt_fail("%s: the iterator holds %ld, %ld expected", w, val(i), v); };
	auto may = [&](iter const &src, long v, auto f) { try { f(); } catch (boom const &) { same(src, v, "source of a copy that threw"); return false; } return true; };
	long v = guarded(ITNEXT, 0, [&] { it.emplace(ch->begin()); return val(*it); }), before = -1; std::optional<iter> prev;
	int n = 0;
	while (v >= 0) {
		too_many(n); may(*it, v, [&] { iter c(*it); same(c, v, "copy"); same(*it, v, "source of a copy"); if (prev) { c = *prev; same(c, before, "copy assignment"); same(*prev, before, "source of a copy assignment"); c = *it; same(c, v, "copy assignment"); } });
		prev.reset(); if (!may(*it, v, [&] { prev.emplace(*it); })) prev.reset(); else before = v;
		bool post = v & 1; v = guarded(ITNEXT, 0, [&] { if (post) (*it)++; else ++*it; return val(*it); });
	}
	if (v != -1 || !it) return;
	try {
		iter const e(*it); iter a(e); same(a, -1, "copy of the end");
		if (prev) {
			may(*prev, before, [&] { a = *prev; same(a, before, "copy assignment to the end"); });
			iter b(e); if (val(a) == before && before != -1) { b = std::move(a); same(b, before, "move assignment to the end"); iter c(std::move(b)); same(c, before, "move"); c = std::move(*prev); same(c, before, "move assignment"); c = e; same(c, -1, "copy assignment of the end"); iter &r = c; c = static_cast<iter const &>(r); same(c, -1, "self assignment"); }
		}
	} catch (boom const &) {}
}
static void run_step(step s) {
	auto guarded = [&](int o, long arg, auto f) { int id = mcrt_call(o, arg); long r; try { r = f(); } catch (boom const &) { r = -2; } mcrt_ret(id, r, 0); return r; };
	switch (s.op) {
		case PUSH: { T x(s.v); guarded(PUSH, s.v, [&] { long r = ch->push(static_cast<T const &>(x)); if (x.get() != s.v) mcrt_fail("push of an lvalue modified its argument"); return r; }); break; }
		case PUSHM: { T x(s.v); guarded(PUSHM, s.v, [&] { return (long) ch->push(std::move(x)); }); break; }
		case EMPL: guarded(EMPL, s.v, [&] { return (long) ch->emplace(s.v); }); break;
#if !EXCHANGE
		case TPUSH: { T x(s.v); guarded(TPUSH, s.v, [&] { return (long) ch->try_push(static_cast<T const &>(x)); }); break; }
		case TPUSHM: { T x(s.v); guarded(TPUSHM, s.v, [&] { return (long) ch->try_push(std::move(x)); }); break; }
		case TEMPL: guarded(TEMPL, s.v, [&] { return (long) ch->try_emplace(s.v); }); break;
#endif
		case POP: guarded(POP, 0, [&] { auto o = ch->pop(); return decode(o); }); break;
		case TPOP: guarded(TPOP, 0, [&] { auto o = ch->try_pop(); return decode(o); }); break;
		case CLOSE: if (static_cast<script const *>(mcrt_user())->flag) plain_flag = 1; guarded(CLOSE, 0, [&] { ch->close(); return 0l; }); break;
		case CLOSED: guarded(CLOSED, 0, [&] { return (long) ch->closed(); }); break;
		case READFLAG: { long c = guarded(CLOSED, 0, [&] { return (long) ch->closed(); }); if (c && plain_flag != 1) mcrt_fail("closed() observed, but writes before close() are not visible"); break; }
		case DRAIN: { int n = 0; while (guarded(POP, 0, [&] { auto o = ch->pop(); return decode(o); }) != -1) too_many(n); break; }
		case ITERC: iterate_with_copies(guarded); break;
		case ITER: {
			// begin() and ++ each take the next element: recorded as pops
			int id = mcrt_call(POP, 0);
			auto it = ch->begin(); bool end = it == ch->end(); mcrt_ret(id, end ? -1 : it->get(), 0);
			bool post = false; int n = 0;
			while (!end) { too_many(n); id = mcrt_call(POP, 0); if (post) it++; else ++it; post = !post; end = it == ch->end(); mcrt_ret(id, end ? -1 : (*it).get(), 0); }
			break;
		}
	}
}
static void setup() {
	auto const &s = *static_cast<script const *>(mcrt_user());
	plain_flag = 0;
#if EXCHANGE
	ch = ::new (storage) chan_t();
#else
	ch = ::new (storage) chan_t(s.cap);
#endif
	for (int i = 0; i < s.pre; ++i) { int id = mcrt_call(EMPL, 90 + i); bool r = ch->emplace(90 + i); mcrt_ret(id, r, 0); }
}
static void body(int tid) { for (step s : static_cast<script const *>(mcrt_user())->th[tid - 1]) run_step(s); }
static void finish() {
	auto const &s = *static_cast<script const *>(mcrt_user());
	// drain what is left: everything accepted must still be there
	for (int k = 0;; too_many(k)) { int id = mcrt_call(TPOP, 0); auto o = ch->try_pop(); long r = decode(o); mcrt_ret(id, r, 0); if (r == -1) break; }
	if (!s.leave_open) {
		{ int id = mcrt_call(CLOSE, 0); ch->close(); mcrt_ret(id, 0, 0); }
		{ int id = mcrt_call(EMPL, 77); bool r = ch->emplace(77); mcrt_ret(id, r, 0); }
		{ int id = mcrt_call(POP, 0); auto o = ch->pop(); mcrt_ret(id, decode(o), 0); }
	}
	ch->~chan_t();
	if (mcrt_live() != 0) mcrt_fail("%d heap blocks still live after the channel and all elements are gone", mcrt_live());
}
static bool check(mcrt::event const *h, int n) {
	auto const &s = *static_cast<script const *>(mcrt_user());
	return lin::linearizable(h, n, spec{EXCHANGE ? 1 : s.cap, false, {}, s.name.find("stale") != std::string::npos});
}

// all threads are asleep: a sender may only sleep while the queue is full and open, a receiver while it is empty and open
static char const *blocked(mcrt::event const *h, int n) {
	auto const &s = *static_cast<script const *>(mcrt_user());
	bool closed = false;
	std::vector<mcrt::event> done; for (int i = 0; i < n; ++i) if (h[i].ret_t >= 0) { done.push_back(h[i]); if (h[i].op == CLOSE) closed = true; }
	// would a non-blocking attempt be allowed to fail now? some linearization of the completed calls decides
	auto may_fail = [&](int op, long res) {
		std::vector<mcrt::event> c = done; mcrt::event probe{}; probe.op = op; probe.res = res; probe.call_t = 1 << 28; probe.ret_t = (1 << 28) + 1; c.push_back(probe);
		return lin::linearizable(c.data(), (int) c.size(), spec{EXCHANGE ? 1 : s.cap, false, {}});
	};
	for (int i = 0; i < n; ++i) if (h[i].ret_t < 0) switch (h[i].op) {
		case POP: case ITNEXT: if (closed) return "a receiver is asleep although the channel is closed";
			if (!may_fail(TPOP, -1)) return EXCHANGE ? "a receiver is asleep although a value is present" : "a receiver is asleep although an element is available";
			break;
		case PUSH: case PUSHM: case EMPL: if (EXCHANGE) return "a sender is blocked"; if (closed) return "a sender is asleep although the channel is closed";
			if (!may_fail(TPUSH, 0)) return "a sender is asleep although there is free capacity";
			break;
		default: return "a non-blocking operation is blocked";
	}
	return nullptr;
}

// "cap=1 pre=0 | push1 pop | close" style scripts
static script parse(std::string const &t) {
	script s{t, 1, {}, 0, false};
	size_t i = 0; auto word = [&]() -> std::string { while (i < t.size() && t[i] == '_') ++i; size_t b = i; while (i < t.size() && t[i] != '_') ++i; return t.substr(b, i - b); };
	static std::vector<std::pair<char const *, int>> const names{{"pushm", PUSHM}, {"push", PUSH}, {"empl", EMPL}, {"tpushm", TPUSHM}, {"tpush", TPUSH}, {"templ", TEMPL}, {"pop", POP}, {"tpop", TPOP}, {"closed", CLOSED}, {"close", CLOSE}, {"iterc", ITERC}, {"iter", ITER}, {"drain", DRAIN}, {"readflag", READFLAG}};
	while (i < t.size()) {
		std::string w = word(); if (w.empty()) break;
		if (w == "T") { s.th.emplace_back(); continue; }
		if (w.starts_with("cap")) { s.cap = atoi(w.c_str() + 3); continue; }
		if (w.starts_with("pre")) { s.pre = atoi(w.c_str() + 3); continue; }
		if (w.starts_with("throw") || w.starts_with("spur") || w.starts_with("pb") || w.starts_with("stale")) continue;
		if (w == "open") { s.leave_open = true; continue; }
		bool ok = false;
		for (auto [n, o] : names) { size_t l = strlen(n); if (w.compare(0, l, n) == 0 && (w.size() == l || isdigit(w[l]))) { if (o == READFLAG) s.flag = true; s.th.back().push_back({o, w.size() > l ? atoi(w.c_str() + l) : 0}); ok = true; break; } }
		if (!ok) { fprintf(stderr, "bad word %s\n", w.c_str()); _exit(74); }
	}
	return s;
}
static int param(std::string const &t, char const *k, int d) { std::string u = "_" + t; size_t p = u.find(std::string("_") + k); return p == std::string::npos ? d : atoi(u.c_str() + p + 1 + strlen(k)); }

int main(int argc, char **argv) {
	// scripts come from a file, one per line
	std::vector<script> scripts; std::vector<mcrt::program> progs;
	char const *file = nullptr; std::vector<char *> rest{argv[0]};
	for (int i = 1; i < argc; ++i) { if (!strcmp(argv[i], "--scripts")) file = argv[++i]; else rest.push_back(argv[i]); }
	FILE *f = fopen(file, "r"); if (!f) { perror(file); return 74; }
	char line[1024]; while (fgets(line, sizeof line, f)) { std::string l(line); while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back(); if (l.empty() || l[0] == '#') continue; scripts.push_back(parse(l)); }
	fclose(f);
	for (auto &s : scripts) {
		mcrt::program p{}; p.name = s.name.c_str(); p.nthreads = (int) s.th.size(); p.setup = setup; p.thread = body; p.finish = finish; p.check = check; p.blocked = blocked; p.user = &s;
		p.faults = param(s.name, "throw", 0); p.spurious = param(s.name, "spur", 0); p.stale = param(s.name, "stale", 0); p.preemptions = param(s.name, "pb", -1);
		progs.push_back(p);
	}
	return mcrt_main((int) rest.size(), rest.data(), progs.data(), (int) progs.size());
}
