// Synchronized limit_allocator under the controlled scheduler: threads allocate and free through copies of one budget.
#include <dice/template-library/limit_allocator.hpp>
#include "../../engine/lin.hpp"
#include "payload.hpp"
#include <cstdio>
#include <cstring>
#include <optional>
#include <string>
#include <unistd.h>
#include <vector>
namespace dtl = dice::template_library;

// upstream: counts outstanding bytes at the moment they are really handed out / taken back
static long outstanding, limit_bytes;
#define RAW __attribute__((no_sanitize("thread"), noinline))
RAW static void up_take(long n) { mcrt_atomic_point(&outstanding, "upstream allocate"); outstanding += n; if (outstanding > limit_bytes) mcrt_fail("%ld bytes are outstanding, the limit is %ld", outstanding, limit_bytes); }
RAW static void up_give(long n) { mcrt_atomic_point(&outstanding, "upstream deallocate"); outstanding -= n; if (outstanding < 0) mcrt_fail("more bytes returned than taken"); }
template<typename T>
struct up {
	using value_type = T;
	up() = default;
	template<typename U> up(up<U> const &) noexcept {}
	T *allocate(size_t n) { if (mcrt_fault("upstream allocation fails")) throw std::bad_alloc{}; up_take((long) (n * sizeof(T))); return static_cast<T *>(::operator new(n * sizeof(T))); }
	void deallocate(T *p, size_t n) { ::operator delete(p); up_give((long) (n * sizeof(T))); }
	bool operator==(up const &) const = default;
};
using alloc_t = dtl::limit_allocator<short, up>;
using calloc_t = std::allocator_traits<alloc_t>::rebind_alloc<char>;

enum op { ALLOC, FREE, REBALLOC, COPY };
struct step { int op, n; };
struct script { std::string name; int limit; std::vector<std::vector<step>> th; };
alignas(alloc_t) static unsigned char stor[5][sizeof(alloc_t)];
static alloc_t *al[5];
struct block { void *p; int n; bool rebound; };
static std::vector<block> *left[5];

struct spec {
	long left; unsigned pend = 0; bool stale = false;
	auto operator<=>(spec const &) const = default;
	std::vector<spec> next(mcrt::event const &e) const {
		spec n = *this;
		if (e.op == ALLOC) {
			if (e.res == 0) return stale || left < e.arg ? std::vector<spec>{n} : std::vector<spec>{};
			if (left < e.arg) return {};
			n.left -= e.arg; n.pend |= (unsigned) e.res2; return {n};
		}
		if (e.res2) { if ((pend & e.res2) == 0) return {}; n.pend &= ~(unsigned) e.res2; }
		n.left += e.arg; return {n};
	}
};
template<typename A>
static void *try_alloc(A &a, int n) {
	int id = mcrt_call(ALLOC, (long) (n * sizeof(typename A::value_type)));
	void *p = nullptr; long r = 1;
	try { p = a.allocate((size_t) n); } catch (std::bad_alloc const &) { r = 0; }
	mcrt_ret(id, r, 0);
	if (p) { memset(p, 0x5a, (size_t) n * sizeof(typename A::value_type)); }
	return p;
}
template<typename A> static void dealloc(A &a, void *p, int n) {
	int id = mcrt_call(FREE, (long) (n * sizeof(typename A::value_type)));
	a.deallocate(static_cast<typename A::value_type *>(p), (size_t) n);
	mcrt_ret(id, 0, 0);
}
static bool faulty;
static void body(int tid) {
	alloc_t &a = *al[tid]; auto &mine = *left[tid];
	std::optional<alloc_t> cp; // operations alternate between the original and a copy once COPY was executed
	for (step s : static_cast<script const *>(mcrt_user())->th[tid - 1]) switch (s.op) {
		case ALLOC: if (void *p = try_alloc(cp ? *cp : a, s.n)) mine.push_back({p, s.n, false}); break;
		case REBALLOC: { calloc_t c(cp ? *cp : a); if (void *p = try_alloc(c, s.n)) mine.push_back({p, s.n, true}); break; }
		case COPY: cp.emplace(a); break;
		case FREE: if (!mine.empty()) { block b = mine.front(); mine.erase(mine.begin()); if (b.rebound) { calloc_t c(a); dealloc(c, b.p, b.n); } else dealloc(a, b.p, b.n); } break;
	}
}
static void setup() {
	auto const &s = *static_cast<script const *>(mcrt_user());
	outstanding = 0; limit_bytes = s.limit * 2; faulty = s.name.find("fault") != std::string::npos;
	al[0] = ::new (stor[0]) alloc_t((size_t) limit_bytes);
	for (size_t i = 1; i <= s.th.size(); ++i) { al[i] = ::new (stor[i]) alloc_t(*al[0]); left[i] = new std::vector<block>; left[i]->reserve(8); }
}
static void finish() {
	auto const &s = *static_cast<script const *>(mcrt_user());
	for (size_t i = 1; i <= s.th.size(); ++i) { // everything is given back, by another thread than the one that took it
		for (block b : *left[i]) { if (b.rebound) { calloc_t c(*al[0]); dealloc(c, b.p, b.n); } else dealloc(*al[0], b.p, b.n); }
		delete left[i]; al[i]->~alloc_t();
	}
	if (!faulty) {
		calloc_t c(*al[0]);
		if (void *p = try_alloc(c, (int) limit_bytes + 1)) { (void) p; mcrt_fail("after everything was returned more than the limit can be allocated"); }
		void *p = try_alloc(c, (int) limit_bytes); if (!p) mcrt_fail("after everything was returned the full limit is not available");
		dealloc(c, p, (int) limit_bytes);
	} else {
		calloc_t c(*al[0]); void *p = nullptr; int n = 0; // upstream may still fail once: retry
		for (; n < 3 && !p; ++n) try { p = c.allocate((size_t) limit_bytes); } catch (std::bad_alloc const &) {}
		if (!p) mcrt_fail("after everything was returned the full limit is not available");
		try { char *q = c.allocate(1); (void) q; mcrt_fail("more than the limit can be allocated"); } catch (std::bad_alloc const &) {}
		c.deallocate(static_cast<char *>(p), (size_t) limit_bytes);
	}
	al[0]->~alloc_t();
	if (outstanding != 0 || mcrt_live() != 0) mcrt_fail("memory still live");
}
static bool check(mcrt::event const *h, int n) {
	auto const &s = *static_cast<script const *>(mcrt_user());
	if (faulty) return true; // with failing upstream allocations: limit, exactness and leaks are judged
	return lin::linearizable(h, n, spec{s.limit * 2, 0, s.name.find("stale") != std::string::npos});
}
static script parse(std::string const &t) {
	script s{t, 3, {}}; size_t i = 0;
	while (i < t.size()) {
		if (t[i] == '_') { ++i; continue; }
		size_t b = i; while (i < t.size() && t[i] != '_') ++i; std::string w = t.substr(b, i - b);
		if (w == "T") { s.th.emplace_back(); continue; }
		if (w.starts_with("lim")) { s.limit = atoi(w.c_str() + 3); continue; }
		if (w.starts_with("stale") || w.starts_with("weak") || w.starts_with("fault")) continue;
		int n = w.size() > 1 ? atoi(w.c_str() + 1) : 0;
		switch (w[0]) { case 'a': s.th.back().push_back({ALLOC, n}); break; case 'r': s.th.back().push_back({REBALLOC, n}); break; case 'd': s.th.back().push_back({FREE, 0}); break; case 'c': s.th.back().push_back({COPY, 0}); break; default: fprintf(stderr, "bad word %s\n", w.c_str()); _exit(74); }
	}
	return s;
}
static int param(std::string const &t, char const *k, int d) { std::string u = "_" + t; size_t p = u.find(std::string("_") + k); return p == std::string::npos ? d : atoi(u.c_str() + p + 1 + strlen(k)); }
int main(int argc, char **argv) {
	std::vector<script> scripts; std::vector<mcrt::program> progs; char const *file = nullptr; std::vector<char *> rest{argv[0]};
	for (int i = 1; i < argc; ++i) { if (!strcmp(argv[i], "--scripts")) file = argv[++i]; else rest.push_back(argv[i]); }
	FILE *f = fopen(file, "r"); if (!f) { perror(file); return 74; }
	char line[1024]; while (fgets(line, sizeof line, f)) { std::string l(line); while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back(); if (!l.empty()) scripts.push_back(parse(l)); }
	fclose(f);
	for (auto &s : scripts) { mcrt::program p{}; p.name = s.name.c_str(); p.nthreads = (int) s.th.size(); p.setup = setup; p.thread = body; p.finish = finish; p.check = check; p.user = &s;
		p.faults = param(s.name, "fault", 0); p.stale = param(s.name, "stale", 0); p.weakfail = param(s.name, "weak", 0); progs.push_back(p); }
	return mcrt_main((int) rest.size(), rest.data(), progs.data(), (int) progs.size());
}
