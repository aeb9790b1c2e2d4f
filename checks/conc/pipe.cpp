// Whole programs: threads joined by channels, exchange channels and value-holding locks; every schedule must end with the right result.
#include <dice/template-library/channel.hpp>
#include <dice/template-library/exchange_channel.hpp>
#include <dice/template-library/mutex.hpp>
#include <dice/template-library/shared_mutex.hpp>
#include <dice/template-library/defer.hpp>
#include "payload.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <new>
#include <optional>
#include <string>
#include <unistd.h>
#include <vector>
namespace dtl = dice::template_library;
using T = item;
enum role { PROD, TPROD, MAP, IMAP, FAIL, COL, ICOL, NCOL, REQ, SRV, PRODX, COLX, ICOLX, BRIDGE, SUM, READ };
struct thr { int role; char in = 0, out = 0; int n = 0; };
struct script { std::string name; int cap[2] = {1, 1}; std::vector<thr> th; };
struct world {
	dtl::channel<T> a, b; dtl::exchange_channel<T> x; dtl::channel<T> reply[6] = {dtl::channel<T>(1), dtl::channel<T>(1), dtl::channel<T>(1), dtl::channel<T>(1), dtl::channel<T>(1), dtl::channel<T>(1)};
	dtl::mutex<int> left_a, left_b, left_x; // senders that have not finished yet
	dtl::mutex<std::vector<int>> results; struct pair_ { int n = 0, twice = 0; }; dtl::shared_mutex<pair_> total;
	world(int ca, int cb, int la, int lb, int lx) : a(ca), b(cb), left_a(la), left_b(lb), left_x(lx) {}
};
alignas(world) static unsigned char storage[sizeof(world)]; static world *w;
struct per_thread { int accepted[8], n_acc, dropped[8], n_drop, seen[16], n_seen; bool failed; }; static per_thread pt[8]; // each written by its own thread only

static void leave(char c) { // the last sender closes
	if (c == 'X') { if (--*w->left_x.lock() == 0) w->x.close(); return; }
	if (--*(c == 'A' ? w->left_a : w->left_b).lock() == 0) (c == 'A' ? w->a : w->b).close();
}
static dtl::channel<T> &ch(char c) { return c == 'A' ? w->a : w->b; }
static void take_note(per_thread &p, int v) { if (p.n_seen == 16) mcrt_fail("more elements arrive than were ever sent"); p.seen[p.n_seen++] = v; }
static void deliver(per_thread &p, int v) { take_note(p, v); w->results.lock()->push_back(v); }
static void body(int tid) {
	thr const &t = static_cast<script const *>(mcrt_user())->th[(size_t) tid - 1]; per_thread &p = pt[tid];
	switch (t.role) {
	case PROD: case TPROD: { DICE_DEFER { leave(t.out); };
		for (int i = 1; i <= t.n; ++i) { int v = tid * 10 + i; T x(v); auto &c = ch(t.out); bool ok = t.role == TPROD && c.try_push(static_cast<T const &>(x)); if (!ok) ok = i % 3 == 0 ? c.emplace(v) : i % 3 == 1 ? c.push(std::move(x)) : c.push(static_cast<T const &>(x)); if (!ok) break; p.accepted[p.n_acc++] = v; }
		break; }
	case MAP: case IMAP: case FAIL: try {
		DICE_DEFER { leave(t.out); };
		DICE_DEFER_TO_FAIL { ch(t.in).close(); };
		auto handle = [&](T &x) { int v = x.get(); take_note(p, v); if (t.role == FAIL && mcrt_fault("a stage throws")) { p.dropped[p.n_drop++] = v; throw boom{}; } if (!ch(t.out).push(T(v + 1000))) { p.dropped[p.n_drop++] = v; ch(t.in).close(); return false; } return true; };
		if (t.role == IMAP) { for (auto &x : ch(t.in)) if (!handle(x)) break; }
		else while (auto x = ch(t.in).pop()) if (!handle(*x)) break;
		} catch (boom const &) { p.failed = true; } break;
	case COL: while (auto x = ch(t.in).pop()) deliver(p, x->get()); break;
	case ICOL: for (auto &x : ch(t.in)) deliver(p, x.get()); break;
	case NCOL: for (int i = 0; i < t.n; ++i) if (auto x = ch(t.in).pop()) deliver(p, x->get()); else break; ch(t.in).close(); break;
	case REQ: { DICE_DEFER { leave(t.out); }; for (int i = 1; i <= t.n; ++i) { if (!ch(t.out).push(T(tid * 10 + i))) mcrt_fail("a request is refused although the server is running"); auto r = w->reply[tid].pop(); if (!r || r->get() != tid * 10 + i + 500) mcrt_fail("client %d receives %d as answer to request %d", tid, r ? r->get() : -1, i); } break; }
	case SRV: while (auto x = ch(t.in).pop()) { int v = x->get(); take_note(p, v); w->reply[v / 10].push(T(v + 500)); } break;
	case PRODX: { DICE_DEFER { leave('X'); }; for (int i = 1; i <= t.n; ++i) { int v = tid * 10 + i; bool ok = i % 2 ? w->x.push(T(v)) : w->x.emplace(v); if (!ok) mcrt_fail("an open exchange channel refuses a value"); p.accepted[p.n_acc++] = v; } break; }
	case COLX: while (auto x = w->x.pop()) deliver(p, x->get()); break;
	case ICOLX: for (auto &x : w->x) deliver(p, x.get()); break;
	case BRIDGE: { DICE_DEFER { leave('X'); }; while (auto x = ch(t.in).pop()) { take_note(p, x->get()); if (!w->x.push(std::move(*x))) mcrt_fail("an open exchange channel refuses a value"); } break; }
	case SUM: while (auto x = ch(t.in).pop()) { deliver(p, x->get()); auto g = w->total.lock(); g->n += 1; g->twice += 2; } break;
	case READ: for (int i = 0, last = 0; i < t.n; ++i) { auto g = i % 2 ? w->total.try_lock_shared() : w->total.lock_shared(); if (!g) continue; if ((*g)->twice != 2 * (*g)->n || (*g)->n < last) mcrt_fail("a reader sees a half-made update: %d, %d", (*g)->n, (*g)->twice); last = (*g)->n; } break;
	}
}
static int senders(script const &s, char c) { int n = 0; for (auto &t : s.th) n += t.out == c; return n; }
static int receivers(script const &s, char c) { int n = 0; for (auto &t : s.th) n += t.in == c; return n; }
static void setup() { auto const &s = *static_cast<script const *>(mcrt_user()); memset(pt, 0, sizeof pt); w = ::new (storage) world(s.cap[0], s.cap[1], senders(s, 'A'), senders(s, 'B'), senders(s, 'X')); }
static void judge() {
	auto const &s = *static_cast<script const *>(mcrt_user());
	auto has = [&](auto... r) { for (auto &t : s.th) if (((t.role == r) || ...)) return true; return false; };
	bool early = has(NCOL), failed = false; for (auto &p : pt) failed |= p.failed;
	for (char c : {'A', 'B'}) if (senders(s, c) && !ch(c).closed()) mcrt_fail("channel %c is not closed although all senders are gone", c);
	if (senders(s, 'X') && !w->x.closed()) mcrt_fail("the exchange channel is not closed although all senders are gone");
	// conservation: what was accepted is delivered, dropped by a failing stage or still in a channel (only after an early end)
	std::vector<int> sent, got; for (auto &p : pt) { for (int i = 0; i < p.n_acc; ++i) sent.push_back(p.accepted[i]); for (int i = 0; i < p.n_drop; ++i) got.push_back(p.dropped[i] % 1000); }
	int hops = senders(s, 'B') > 0; std::vector<int> &res = *w->results.lock();
	for (int v : res) { if (!has(PRODX, BRIDGE) && v / 1000 != hops) mcrt_fail("element %d skipped a stage or passed one twice", v); got.push_back(v % 1000); }
	for (char c : {'A', 'B'}) while (auto x = ch(c).try_pop()) { if (!early && !failed) mcrt_fail("element %d is left behind in channel %c", x->get(), c); got.push_back(x->get() % 1000); }
	std::sort(sent.begin(), sent.end()); std::sort(got.begin(), got.end());
	if (has(PRODX, BRIDGE)) { // newest values only: no value twice, none invented, the last one sent arrives
		for (size_t i = 0; i + 1 < got.size(); ++i) if (got[i] == got[i + 1]) mcrt_fail("value %d is delivered twice", got[i]);
		for (int v : got) if (!std::binary_search(sent.begin(), sent.end(), v)) mcrt_fail("value %d was never sent", v);
		if (auto x = w->x.try_pop()) mcrt_fail("value %d is left behind in the exchange channel", x->get());
		if (senders(s, 'X') == 1 && !got.empty() && !sent.empty() && senders(s, 'A') <= 1 && got.back() != sent.back()) mcrt_fail("the newest value %d is never delivered", sent.back());
		if (got.empty() && !sent.empty()) mcrt_fail("nothing is delivered");
	} else if (!has(REQ) && sent != got) { std::string m; for (int v : sent) m += " " + std::to_string(v); m += ", accounted for are"; for (int v : got) m += " " + std::to_string(v); mcrt_fail("accepted are%s", m.c_str()); }
	if (has(REQ)) { std::vector<int> want, seen; for (size_t i = 0; i < s.th.size(); ++i) { if (s.th[i].role == REQ) for (int k = 1; k <= s.th[i].n; ++k) want.push_back((int) (i + 1) * 10 + k); for (int k = 0; k < pt[i + 1].n_seen; ++k) seen.push_back(pt[i + 1].seen[k]); } std::sort(seen.begin(), seen.end()); if (want != seen) mcrt_fail("the servers do not see every request once"); }
	if (!early && !failed && !has(PRODX, BRIDGE, REQ)) { size_t all = 0; for (auto &t : s.th) if (t.role == PROD || t.role == TPROD) all += (size_t) t.n; if (sent.size() != all) mcrt_fail("an open channel refused an element"); }
	// order: every receiver sees the elements of one producer in order if they came straight from it or through a single stage
	for (size_t i = 0; i < s.th.size(); ++i) if (s.th[i].in == 'A' || s.th[i].in == 'X' || (s.th[i].in == 'B' && receivers(s, 'A') == 1)) { if (s.th[i].in == 'X' && has(BRIDGE) && receivers(s, 'A') > 1) continue;
		for (int k = 0; k < pt[i + 1].n_seen; ++k) for (int l = 0; l < k; ++l) { int x = pt[i + 1].seen[l] % 1000, y = pt[i + 1].seen[k] % 1000; if (x / 10 == y / 10 && x >= y) mcrt_fail("element %d overtook %d", x, y); } }
	for (auto &p : pt) for (int i = 0; i < p.n_acc; ++i) mcrt_observe((uint64_t) p.accepted[i]); for (int v : res) mcrt_observe((uint64_t) v);
}
static void finish() {
	judge(); w->~world(); if (mcrt_live() != 0) mcrt_fail("%d heap blocks still live at the end", mcrt_live());
}
static char const *blocked(mcrt::event const *, int) { return "the program never ends: all of its threads are asleep"; }
static script parse(std::string const &t) {
	script s{t}; static struct { char const *n; int r; char kind; } const words[] = {{"tprod", TPROD, 'o'}, {"prodX", PRODX, 'x'}, {"prod", PROD, 'o'}, {"imap", IMAP, 'm'}, {"map", MAP, 'm'}, {"fail", FAIL, 'm'}, {"icolX", ICOLX, 'y'}, {"colX", COLX, 'y'}, {"icol", ICOL, 'i'}, {"ncol", NCOL, 'i'}, {"col", COL, 'i'}, {"req", REQ, 'o'}, {"srv", SRV, 'i'}, {"bridge", BRIDGE, 'b'}, {"sum", SUM, 'i'}, {"read", READ, 'r'}};
	size_t i = 0; while (i < t.size()) {
		size_t e = t.find('_', i); std::string q = t.substr(i, e == std::string::npos ? e : e - i); i = e == std::string::npos ? t.size() : e + 1; if (q.empty()) continue;
		if (q.starts_with("cap")) { s.cap[q[3] == 'B'] = atoi(q.c_str() + 4); continue; }
		if (q.starts_with("spur") || q.starts_with("fault") || q.starts_with("stale") || q.starts_with("pb")) continue;
		bool ok = false; for (auto &k : words) if (q.starts_with(k.n)) { thr h{k.r}; char const *p = q.c_str() + strlen(k.n); if (k.kind == 'o') h.out = *p++; if (k.kind == 'i') h.in = *p++; if (k.kind == 'm') { h.in = *p++; h.out = *p++; } if (k.kind == 'x') h.out = 'X'; if (k.kind == 'y') h.in = 'X'; if (k.kind == 'b') { h.in = *p++; h.out = 'X'; } h.n = *p ? atoi(p) : 0; s.th.push_back(h); ok = true; break; }
		if (!ok) { fprintf(stderr, "bad word %s\n", q.c_str()); _exit(74); } }
	return s;
}
static int param(std::string const &t, char const *k, int d) { std::string u = "_" + t; size_t p = u.find(std::string("_") + k); return p == std::string::npos ? d : atoi(u.c_str() + p + 1 + strlen(k)); }
int main(int argc, char **argv) {
	std::vector<script> scripts; std::vector<mcrt::program> progs; char const *file = nullptr; std::vector<char *> rest{argv[0]};
	for (int i = 1; i < argc; ++i) { if (!strcmp(argv[i], "--scripts")) file = argv[++i]; else rest.push_back(argv[i]); }
	FILE *f = fopen(file, "r"); if (!f) { perror(file); return 74; }
	char line[1024]; while (fgets(line, sizeof line, f)) { std::string l(line); while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back(); if (!l.empty()) scripts.push_back(parse(l)); }
	fclose(f);
	for (auto &s : scripts) { mcrt::program p{}; p.name = s.name.c_str(); p.nthreads = (int) s.th.size(); p.setup = setup; p.thread = body; p.finish = finish; p.check = nullptr; p.blocked = blocked; p.user = &s; p.faults = param(s.name, "fault", 0); p.spurious = param(s.name, "spur", 0); p.stale = param(s.name, "stale", 0); p.preemptions = param(s.name, "pb", -1); progs.push_back(p); }
	return mcrt_main((int) rest.size(), rest.data(), progs.data(), (int) progs.size());
}
