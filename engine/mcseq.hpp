// Engine B/C: exhaustive enumeration of choice sequences over the real code, in one process, with replay.
// A scenario's body calls choose(n) for every decision (operation, argument, fault); the explorer runs the body for
// every choice vector (depth-first, shortest-first at each level). One translation unit per harness.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <new>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak)); // provided by ASan and by UBSan

namespace mcs {
using u64 = std::uint64_t;
inline u64 mix(u64 a, u64 b) {
	u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15F39CC060ull + (a << 7) + (a >> 3));
	x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x *= 0x94D049BB133111EBull; x ^= x >> 32; return x;
}
inline u64 hash_str(std::string_view s) { u64 h = 0xcbf29ce484222325ull; for (unsigned char c : s) h = mix(h, c); return h; }

struct scenario { std::string name; std::function<void()> body; int faults = 0; std::vector<int> fix = {}; };
struct discovered { int n; };

struct engine {
	struct rec { int n, k; };
	std::vector<rec> stack; size_t pos = 0; std::vector<int> fix; bool discover = false; bool replaying = false, verbose = false, tracing = false;
	std::string cur; std::vector<std::string> ops; char lastmsg[1024] = {0};
	long executions = 0, transitions = 0, pruned = 0, checks = 0; size_t max_depth = 0; int faults_left = 0;
	std::unordered_set<u64> states, outcomes; std::unordered_map<u64, int> seen;
	u64 sig = 0; int nops = 0;
	char const *journal = nullptr;
	volatile long beat = 0; volatile int stuck = 0; volatile bool in_exec = false; bool reported = false;
	long live_blocks = 0; size_t live_bytes = 0; bool sut = false; bool alloc_faults = false; long alloc_count = 0;
	double t_start = 0;
};
inline engine E;

inline void write_violation(char const *msg) noexcept {
	if (E.reported) return;
	E.reported = true; E.sut = false;
	int fd = E.journal ? open(E.journal, O_CREAT | O_TRUNC | O_WRONLY, 0644) : 1;
	if (fd < 0) return;
	auto put = [&](char const *s, size_t n) { while (n) { ssize_t k = ::write(fd, s, n); if (k <= 0) break; s += k; n -= (size_t) k; } };
	put(E.cur.data(), E.cur.size()); put(":", 1);
	char b[32]; for (size_t i = 0; i < E.pos; ++i) { int k = snprintf(b, sizeof b, "%s%d", i ? "," : "", E.stack[i].k); put(b, (size_t) k); }
	put("\n", 1); put(msg, strlen(msg)); put("\n", 1);
	if (E.tracing) for (auto const &o : E.ops) { put("  ", 2); put(o.data(), o.size()); put("\n", 1); }
	if (fd != 1) close(fd);
}
[[noreturn]] __attribute__((format(printf, 1, 2))) inline void fail(char const *fmt, ...) {
	char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	write_violation(b); if (E.verbose) fprintf(stderr, "violation: %s\n", b);
	_exit(10);
}
#define MC_CHECK(cond, ...) do { ++::mcs::E.checks; if (!(cond)) ::mcs::fail(__VA_ARGS__); } while (0)

inline int choose(int n) {
	if (n <= 1) return 0;
	if (E.pos < E.stack.size()) {
		auto &r = E.stack[E.pos];
		if (E.replaying && r.n == 0) r.n = n;
		if (r.n != n || r.k >= n) { fprintf(stderr, "mcs: replay divergence at %zu: %d of %d, now %d\n", E.pos, r.k, r.n, n); _exit(71); }
	} else if (E.pos < E.fix.size()) { int k = E.fix[E.pos]; bool s = E.sut; E.sut = false; E.stack.push_back({n, k}); E.sut = s; if (k >= n) { fprintf(stderr, "mcs: bad fixed choice\n"); _exit(71); } }
	else if (E.discover) { throw discovered{n}; }
	else { bool s = E.sut; E.sut = false; E.stack.push_back({n, 0}); E.sut = s; }
	return E.stack[E.pos++].k;
}
// one operation of the enumerated sequence (counted as a transition)
__attribute__((format(printf, 1, 2))) inline void op(char const *fmt, ...) {
	++E.transitions; ++E.nops; ++E.beat;
	if (!E.tracing) return;
	bool s = E.sut; E.sut = false;
	char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); E.ops.emplace_back(b);
	E.sut = s;
}
// the abstract (reference-model) state reached: counted when new
inline void state(u64 h) { bool s = E.sut; E.sut = false; E.states.insert(h); E.sut = s; }
inline void state(std::string const &s) { state(hash_str(s)); }
inline void observe(u64 v) { E.sig = mix(E.sig, v); }
// whether (state, remaining depth) still has to be expanded; only with keys that determine all futures
inline bool fresh(u64 key, int remaining) {
	bool s = E.sut; E.sut = false; bool r = true;
	if (!E.replaying) { auto [it, ins] = E.seen.emplace(key, remaining); if (!ins) { if (it->second >= remaining && E.pos >= E.stack.size()) r = false; else it->second = std::max(it->second, remaining); } }
	E.sut = s; return r;
}
// a point at which the environment or a user type may fail; explored, bounded by scenario::faults
inline bool fault(char const *what) {
	if (E.faults_left <= 0) return false;
	if (!choose(2)) return false;
	--E.faults_left; op("  [fault: %s]", what); return true;
}
// while alive, allocations belong to the code under test: counted, and failing if alloc_faults
struct sut { bool o; sut() : o(E.sut) { E.sut = true; } ~sut() { E.sut = o; } };
struct harness { bool o; harness() : o(E.sut) { E.sut = false; } ~harness() { E.sut = o; } };

namespace detail {
inline constexpr size_t LIVE_CAP = 1 << 15; // power of two, open addressing with tombstones
inline void *live_tab[LIVE_CAP]; inline size_t live_sz[LIVE_CAP]; inline size_t live_used;
inline size_t live_slot(void *p) { return (size_t) (((u64) p * 0x9E3779B97F4A7C15ull) >> 49) & (LIVE_CAP - 1); }
inline void live_add(void *p, size_t n) { size_t i = live_slot(p); while (live_tab[i] && live_tab[i] != (void *) 1) i = (i + 1) & (LIVE_CAP - 1); live_tab[i] = p; live_sz[i] = n; ++E.live_blocks; E.live_bytes += n; if (E.live_blocks > (long) LIVE_CAP / 2) fail("unbounded allocation: %ld live blocks", E.live_blocks); }
inline void live_del(void *p) { size_t i = live_slot(p); for (size_t k = 0; k < LIVE_CAP && live_tab[i]; ++k, i = (i + 1) & (LIVE_CAP - 1)) if (live_tab[i] == p) { live_tab[i] = (void *) 1; --E.live_blocks; E.live_bytes -= live_sz[i]; if (E.live_blocks == 0) memset(live_tab, 0, sizeof live_tab); return; } }
inline size_t live_size(void *p) { size_t i = live_slot(p); for (size_t k = 0; k < LIVE_CAP && live_tab[i]; ++k, i = (i + 1) & (LIVE_CAP - 1)) if (live_tab[i] == p) return live_sz[i]; return (size_t) -1; }
inline void *get(size_t n, size_t al, bool nothrow) {
	if (E.sut) {
		++E.alloc_count;
		if (E.alloc_faults && fault("allocation fails")) { if (nothrow) return nullptr; throw std::bad_alloc{}; }
		if (n > (size_t) 1 << 31) { if (nothrow) return nullptr; throw std::bad_alloc{}; }
	}
	void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
	if (!p) { if (nothrow) return nullptr; throw std::bad_alloc{}; }
	if (E.sut) live_add(p, n);
	return p;
}
inline void put(void *p) noexcept { if (!p) return; if (E.live_blocks) live_del(p); free(p); }
} // namespace detail

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec * 1e-9; }
inline void on_alarm(int) {
	static long last = -1;
	if (!E.in_exec) return;
	if (E.beat != last) { last = E.beat; E.stuck = 0; return; }
	if (++E.stuck >= 5) { write_violation("the operation does not terminate"); _exit(10); }
}
inline void on_crash(int sig) { char b[64]; snprintf(b, sizeof b, "crash: signal %d%s", sig, sig == SIGABRT ? " (abort: failed assertion or terminate)" : ""); write_violation(b); _exit(97); }
inline void on_death() { write_violation("memory error or undefined behaviour (sanitizer)"); }

inline void run_once(scenario const &s) {
	E.pos = 0; E.faults_left = s.faults; E.sig = 0x51; E.nops = 0; E.ops.clear(); E.sut = false; E.alloc_faults = false; E.alloc_count = 0; ++E.beat;
	E.in_exec = true;
	try { s.body(); }
	catch (std::exception const &e) { fail("an unexpected exception escaped: %s", e.what()); }
	catch (...) { fail("an unexpected exception escaped"); }
	E.in_exec = false;
	if (E.live_blocks != 0) fail("%ld allocated blocks were never released", E.live_blocks);
}
inline bool backtrack() {
	E.stack.resize(std::min(E.pos, E.stack.size()));
	while (E.stack.size() > E.fix.size()) { auto &r = E.stack.back(); if (r.k + 1 < r.n) { ++r.k; return true; } E.stack.pop_back(); }
	return false;
}
inline void json_str(FILE *o, std::string const &s) { fputc('"', o); for (unsigned char c : s) { if (c == '"' || c == '\\') { fputc('\\', o); fputc(c, o); } else if (c < 32 || c > 126) fprintf(o, "\\u%04x", c); else fputc(c, o); } fputc('"', o); }

// one scenario per value of the first `depth` choices: they run in parallel
inline std::vector<scenario> split(std::vector<scenario> in, int depth = 1) {
	for (; depth > 0; --depth) {
		std::vector<scenario> out;
		for (auto &s : in) {
			// in a child process: a violation before the first choice must not end the listing (the scenario then stays whole)
			int n = 0, fd[2]; if (pipe(fd) != 0) abort();
			fflush(nullptr); pid_t pid = fork();
			if (pid == 0) {
				close(fd[0]); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); alarm(60); E.journal = "/dev/null";
				E.fix = s.fix; E.faults_left = s.faults; E.discover = true;
				try { s.body(); } catch (discovered const &d) { n = d.n; }
				ssize_t w = ::write(fd[1], &n, sizeof n); _exit(w == sizeof n ? 0 : 1);
			}
			close(fd[1]); if (read(fd[0], &n, sizeof n) != sizeof n) n = 0; close(fd[0]); int st; waitpid(pid, &st, 0);
			if (n == 0) { out.push_back(s); continue; }
			for (int i = 0; i < n; ++i) { scenario t = s; t.fix.push_back(i); t.name += (s.fix.empty() ? "-" : ".") + std::to_string(i); out.push_back(t); }
		}
		in = out;
	}
	return in;
}

inline int run(int argc, char **argv, std::vector<scenario> const &all) {
	char const *only = nullptr, *rep = nullptr, *outp = nullptr; bool list = false; double limit = 0;
	for (int i = 1; i < argc; ++i) {
		std::string_view a = argv[i];
		if (a == "--list") list = true; else if (a == "--only") only = argv[++i]; else if (a == "--replay") rep = argv[++i];
		else if (a == "--verbose") E.verbose = E.tracing = true; else if (a == "--journal") E.journal = argv[++i];
		else if (a == "--out") outp = argv[++i]; else if (a == "--time") limit = atof(argv[++i]);
	}
	if (list) { for (auto const &s : all) puts(s.name.c_str()); return 0; }
	struct sigaction sa{}; sa.sa_handler = on_crash; sa.sa_flags = SA_NODEFER; sigaction(SIGABRT, &sa, nullptr);
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
#if !defined(__SANITIZE_ADDRESS__)
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
#endif
	struct sigaction sb{}; sb.sa_handler = on_alarm; sb.sa_flags = SA_RESTART; sigaction(SIGALRM, &sb, nullptr);
	itimerval tv{{5, 0}, {5, 0}}; setitimer(ITIMER_REAL, &tv, nullptr);
	if (rep) {
		std::string r = rep; size_t c = r.rfind(':'); std::string name = r.substr(0, c);
		for (auto const &s : all) if (s.name == name) {
			E.cur = name; E.replaying = true; E.fix = {};
			for (char const *p = r.c_str() + (c == std::string::npos ? r.size() : c + 1); *p >= '0' && *p <= '9';) { char *e; long v = strtol(p, &e, 10); E.stack.push_back({0, (int) v}); p = *e == ',' ? e + 1 : e; }
			run_once(s);
			printf("replay of %s: no violation\n", name.c_str()); for (auto const &o : E.ops) printf("  %s\n", o.c_str());
			return 0;
		}
		fprintf(stderr, "no such scenario\n"); return 73;
	}
	FILE *o = outp ? fopen(outp, "w") : stdout;
	for (auto const &s : all) {
		if (only && s.name != only) continue;
		E.cur = s.name; E.fix = s.fix; E.stack.clear(); E.states.clear(); E.outcomes.clear(); E.seen.clear();
		E.executions = E.transitions = E.checks = 0; E.max_depth = 0; double t0 = now(); bool complete = true;
		size_t best = 0; std::vector<engine::rec> sample_stack;
		do {
			run_once(s); ++E.executions;
			E.outcomes.insert(E.sig);
			if ((size_t) E.nops >= best) { best = (size_t) E.nops; sample_stack.assign(E.stack.begin(), E.stack.begin() + (long) std::min(E.pos, E.stack.size())); }
			E.max_depth = std::max(E.max_depth, (size_t) E.nops);
			if (limit > 0 && (E.executions & 63) == 0 && now() - t0 > limit) { complete = !backtrack(); break; }
		} while (backtrack());
		long ex = E.executions, tr = E.transitions, ch = E.checks; double el = now() - t0;
		// re-run the longest execution twice: same observations (determinism), and record it as the sample
		E.stack = sample_stack; E.replaying = true; run_once(s); u64 s1 = E.sig; E.stack = sample_stack; E.tracing = true; run_once(s); E.tracing = E.verbose; E.replaying = false;
		if (s1 != E.sig) { fprintf(stderr, "mcs: replay of %s is not deterministic\n", s.name.c_str()); return 71; }
		fprintf(o, "{\"scenario\":"); json_str(o, s.name);
		fprintf(o, ",\"executions\":%ld,\"complete_executions\":%ld,\"states\":%zu,\"transitions\":%ld,\"comparisons\":%ld,\"outcomes\":%zu,\"max_depth\":%zu,\"complete\":%s,\"secs\":%.2f,\"sample\":[", ex, ex, E.states.size(), tr, ch, E.outcomes.size(), E.max_depth, complete ? "true" : "false", el);
		for (size_t i = 0; i < E.ops.size() && i < 40; ++i) { if (i) fputc(',', o); json_str(o, E.ops[i]); }
		fprintf(o, "]}\n"); fflush(o);
	}
	if (o != stdout) fclose(o);
	return 0;
}

// ------------------------------------------------------------------ lifetime-tracked user type
struct boom : std::exception { char const *what() const noexcept override { return "injected"; } };
struct life { // registry of live tracked objects of one execution
	struct ent { void const *p; int type; };
	std::vector<ent> v;
	void add(void const *p, int t) { harness h; for (auto &e : v) if (e.p == p && e.type == t) fail("an object is constructed on top of a live object (type %d)", t); v.push_back({p, t}); }
	void del(void const *p, int t) { harness h; for (auto &e : v) if (e.p == p && e.type == t) { e = v.back(); v.pop_back(); return; } fail("an object is destroyed that is not alive (type %d): destroyed twice or never constructed", t); }
	void use(void const *p, int t) { for (auto &e : v) if (e.p == p && e.type == t) return; fail("an object is used that is not alive (type %d)", t); }
	void reset() { v.clear(); }
	void expect(size_t n) { if (v.size() != n) fail("%zu tracked objects are alive, %zu expected", v.size(), n); }
};
inline life L;
} // namespace mcs

void *operator new(size_t n) { return mcs::detail::get(n, 16, false); }
void *operator new[](size_t n) { return mcs::detail::get(n, 16, false); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return mcs::detail::get(n, 16, true); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return mcs::detail::get(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return mcs::detail::get(n, (size_t) a, false); }
void *operator new[](size_t n, std::align_val_t a) { return mcs::detail::get(n, (size_t) a, false); }
void operator delete(void *p) noexcept { mcs::detail::put(p); }
void operator delete[](void *p) noexcept { mcs::detail::put(p); }
void operator delete(void *p, size_t) noexcept { mcs::detail::put(p); }
void operator delete[](void *p, size_t) noexcept { mcs::detail::put(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { mcs::detail::put(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { mcs::detail::put(p); }
void operator delete(void *p, std::align_val_t) noexcept { mcs::detail::put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { mcs::detail::put(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { mcs::detail::put(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { mcs::detail::put(p); }
