// Controlled-scheduler stateless model checker. See DESIGN.md, "Engine A".
// Compiled WITHOUT -fsanitize=thread into libmcrt.so; implements the __tsan_* hooks and interposes pthread.
#include "mcrt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <dlfcn.h>
#include <exception>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <fcntl.h>
#include <initializer_list>

#define EXP extern "C" __attribute__((visibility("default")))
extern "C" char __libc_single_threaded;
namespace __cxxabiv1 { struct __cxa_eh_globals { void *caught; unsigned uncaught; }; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

using namespace mcrt;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

static inline u64 mix(u64 a, u64 b) {
	u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15F39CC060ull + (a << 7) + (a >> 3));
	x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x *= 0x94D049BB133111EBull; x ^= x >> 32;
	return x;
}

// ------------------------------------------------------------------ minimal growable array (malloc based)
template<class T> struct arr {
	T *p = nullptr; size_t n = 0, c = 0;
	void push(T const &t) { if (n == c) { c = c ? c * 2 : 64; p = (T *) realloc((void*)p, c * sizeof(T)); } p[n++] = t; }
	T &operator[](size_t i) { return p[i]; }
};

// ------------------------------------------------------------------ explorer
struct choice_rec { int n, k; int cost; u8 alts_seen; };
static arr<choice_rec> stack_;      // DFS stack = current choice vector
static size_t pos_;                 // next choice index in this execution
static bool replaying_;             // --replay: choices fixed
static bool verbose_;
static bool diverged_;

static program const *prog_;
static long n_exec_, n_states_, n_trans_, n_complete_, n_stuck_, n_pruned_, n_checked_;
static int max_depth_;
static char const *journal_path_;
static char const *out_path_;
static volatile bool in_exec_;

// visited set: open addressing u64 -> u8 (best remaining preemption budget + 1)
struct vset {
	u64 *k = nullptr; u8 *v = nullptr; size_t cap = 0, n = 0;
	void init(size_t c) { cap = c; n = 0; k = (u64 *) calloc(c, 8); v = (u8 *) calloc(c, 1); }
	void clear() { free(k); free(v); init(1 << 16); }
	void grow() { vset o = *this; init(o.cap * 2); for (size_t i = 0; i < o.cap; ++i) if (o.k[i]) { *slot(o.k[i]) = o.k[i]; v[slot(o.k[i]) - k] = o.v[i]; ++n; } free(o.k); free(o.v); }
	u64 *slot(u64 x) { size_t i = x & (cap - 1); while (k[i] && k[i] != x) i = (i + 1) & (cap - 1); return &k[i]; }
	// true if x is new or reached with a larger budget
	bool improve(u64 x, int budget) {
		if (!x) x = 1;
		if (n * 2 > cap) grow();
		u64 *s = slot(x); u8 b = (u8) (budget + 1);
		if (!*s) { *s = x; v[s - k] = b; ++n; return true; }
		if (v[s - k] < b) { v[s - k] = b; return true; }
		return false;
	}
};
static vset visited_, outcomes_;

// ------------------------------------------------------------------ threads
struct vclock { u32 c[MAXT]; };
static inline void vjoin(vclock &a, vclock const &b) { for (int i = 0; i < MAXT; ++i) if (a.c[i] < b.c[i]) a.c[i] = b.c[i]; }

enum pend_kind { P_START, P_RUN, P_LOCK, P_RELOCK, P_CVWAIT, P_RDLOCK, P_WRLOCK, P_FUTEX, P_POINT, P_CALL, P_YIELD, P_DONE };
struct fiber {
	void *sp; char *stk;
	int tid;
	pend_kind pk; void *obj; void *obj2; char const *what;
	bool signaled, timed, timedout;
	bool skip_next;                  // the next scheduling point was already taken (deferred call)
	u64 h;
	vclock vc, acqf, relf; bool has_relf;
	__cxxabiv1::__cxa_eh_globals eh;
	u64 cvseq;
};
static fiber fib_[MAXT];
static void *main_sp_;
static int cur_;                    // running thread, 0 = main
static int nthreads_;
static int last_run_;
static int faults_left_, preempt_left_, spurious_left_, weak_left_, stale_left_;
static int steps_;
static int const HORIZON = 20000;
static bool rt_;                    // inside the runtime (hooks disabled)
static u64 retsum_; static u64 outsig_;
static event hist_[MAXH]; static int nhist_; static int now_;
static event lasth_[MAXH]; static int nlasth_;
static u64 cvseq_;
static bool yield_block_[MAXT];

struct rtguard { bool o; rtguard() : o(rt_) { rt_ = true; } ~rtguard() { rt_ = o; } };

extern "C" void mcrt_switch(void **save, void *to);
asm(R"(
.text
.type mcrt_switch,@function
mcrt_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
)");

// ------------------------------------------------------------------ reporting
static char tracebuf_[1 << 16]; static size_t tracelen_;
static void trace(char const *fmt, ...) {
	if (!verbose_) return;
	va_list ap; va_start(ap, fmt);
	int k = vsnprintf(tracebuf_ + tracelen_, sizeof tracebuf_ - tracelen_, fmt, ap); va_end(ap);
	if (k > 0) { tracelen_ += k; if (tracelen_ >= sizeof tracebuf_) tracelen_ = sizeof tracebuf_ - 1; }
}
static void write_violation(char const *msg) {
	char buf[1 << 15]; int n = 0;
	n += snprintf(buf + n, sizeof buf - n, "%s:", prog_ ? prog_->name : "?");
	for (size_t i = 0; i < pos_ && n < (int) sizeof buf - 1200; ++i) n += snprintf(buf + n, sizeof buf - n, "%s%d", i ? "," : "", stack_[i].k);
	n += snprintf(buf + n, sizeof buf - n, "\n%s\n", msg);
	int fd = journal_path_ ? open(journal_path_, O_CREAT | O_TRUNC | O_WRONLY, 0644) : 2;
	if (fd >= 0) { (void) !write(fd, buf, n); if (verbose_) (void) !write(fd, tracebuf_, tracelen_); close(fd); }
	if (verbose_) { (void) !write(1, buf, n); (void) !write(1, tracebuf_, tracelen_); }
}
static void fail_now(char const *msg) { rt_ = true; write_violation(msg); _exit(10); }
EXP void mcrt_fail(char const *fmt, ...) {
	rt_ = true; char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); fail_now(b); __builtin_unreachable();
}
EXP void mcrt_note(char const *fmt, ...) {
	rtguard g; if (!verbose_) return; char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); trace("      [T%d] %s\n", cur_, b);
}
static void crash_handler(int sig) {
	if (sig == SIGALRM) { fail_now("execution does not terminate (wall-clock horizon)"); }
	char b[128]; snprintf(b, sizeof b, "crash: signal %d (%s) in T%d", sig, sig == SIGABRT ? "abort/terminate/assert" : sig == SIGSEGV ? "segmentation fault" : "fatal signal", cur_);
	if (in_exec_) fail_now(b);
	(void) !write(2, b, strlen(b)); _exit(70);
}

// ------------------------------------------------------------------ choices
static int choose_raw(int n, char const *what, int cost_nonzero = 0) {
	(void) cost_nonzero;
	if (n <= 1) return 0;
	int k;
	if (pos_ < stack_.n) {
		choice_rec &r = stack_[pos_];
		if (replaying_ && r.n == 0) r.n = n;
		if (r.n != n || r.k >= n) { fprintf(stderr, "mcrt: replay divergence at %zu: recorded %d of %d, now %d options (%s)\n", pos_, r.k, r.n, n, what); diverged_ = true; _exit(71); }
		k = r.k;
	} else {
		stack_.push({n, 0, 0, 0});
		k = 0;
	}
	++pos_;
	return k;
}
EXP int mcrt_choose(int n, char const *what) {
	rtguard g; int k = choose_raw(n, what);
	fib_[cur_].h = mix(fib_[cur_].h, 0x1000 + k);
	trace("  T%d choose %s = %d of %d\n", cur_, what, k, n);
	return k;
}

// ------------------------------------------------------------------ arena (deterministic addresses, never reused within an execution)
static char *arena_; static size_t const ARENA_PER = 1 << 22;
static size_t apos_[MAXT], apeak_[MAXT]; static u8 *ashadow_; // per 16 bytes: 0 never, 1 live, 2 freed, 3 redzone
static int alive_;
static inline bool in_arena(void const *p) { return (char *) p >= arena_ && (char *) p < arena_ + ARENA_PER * MAXT; }
static bool arena_on_;
static void plain_access(void *a, size_t n, bool w);
static void *arena_alloc(size_t n, size_t al) {
	int t = cur_; if (al < 16) al = 16;
	size_t p = (apos_[t] + 16 + al - 1) & ~(al - 1);
	size_t sz = (n + 15) & ~(size_t) 15; if (!sz) sz = 16;
	if (p + sz + 32 > ARENA_PER) return nullptr;
	char *q = arena_ + ARENA_PER * t + p;
	*(size_t *) (q - 16) = n;
	memset(ashadow_ + (q - arena_) / 16, 1, sz / 16);
	ashadow_[(q - arena_) / 16 - 1] = 3;
	ashadow_[(q - arena_ + sz) / 16] = 3;
	apos_[t] = p + sz;
	if (apos_[t] > apeak_[t]) apeak_[t] = apos_[t];
	++alive_;
	return q;
}
static void arena_free(void *p) {
	size_t off = (char *) p - arena_;
	u8 s = ashadow_[off / 16];
	if (s == 2) fail_now("double free");
	if (s != 1 || ashadow_[off / 16 - 1] != 3) fail_now("free of a pointer that was not allocated");
	size_t n = *(size_t *) ((char *) p - 16); size_t sz = (n + 15) & ~(size_t) 15; if (!sz) sz = 16;
	if (cur_) plain_access(p, n, true);
	memset(ashadow_ + off / 16, 2, sz / 16);
	--alive_;
}
EXP int mcrt_live(void) { return alive_; }

static void *xnew(size_t n, size_t al) {
	if (arena_on_ && !rt_) { rtguard g; void *p = arena_alloc(n, al); if (p) return p; }
	void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
	if (!p) abort();
	return p;
}
static void xdel(void *p) { if (!p) return; if (in_arena(p)) { if (arena_on_) { rtguard g; arena_free(p); } return; } free(p); }
#define VIS __attribute__((visibility("default")))
VIS void *operator new(size_t n) { return xnew(n, 16); }
VIS void *operator new[](size_t n) { return xnew(n, 16); }
VIS void *operator new(size_t n, std::nothrow_t const &) noexcept { return xnew(n, 16); }
VIS void *operator new[](size_t n, std::nothrow_t const &) noexcept { return xnew(n, 16); }
VIS void *operator new(size_t n, std::align_val_t a) { return xnew(n, (size_t) a); }
VIS void *operator new[](size_t n, std::align_val_t a) { return xnew(n, (size_t) a); }
VIS void operator delete(void *p) noexcept { xdel(p); }
VIS void operator delete[](void *p) noexcept { xdel(p); }
VIS void operator delete(void *p, size_t) noexcept { xdel(p); }
VIS void operator delete[](void *p, size_t) noexcept { xdel(p); }
VIS void operator delete(void *p, std::align_val_t) noexcept { xdel(p); }
VIS void operator delete[](void *p, std::align_val_t) noexcept { xdel(p); }
VIS void operator delete(void *p, size_t, std::align_val_t) noexcept { xdel(p); }
VIS void operator delete[](void *p, size_t, std::align_val_t) noexcept { xdel(p); }

// ------------------------------------------------------------------ race detection
struct cell { u32 w[MAXT], r[MAXT], aw[MAXT], ar[MAXT]; };
struct granule { u64 key; u32 epoch; u32 dummy; cell b[8]; };
static granule *gr_; static size_t const GCAP = 1 << 14; static u32 epoch_ = 1; static size_t gcount_;
static granule *gfind(u64 key) {
	size_t i = (key * 0x9E3779B97F4A7C15ull) >> 50; i &= GCAP - 1;
	for (;;) {
		granule *g = &gr_[i];
		if (g->epoch != epoch_) { if (++gcount_ > GCAP - GCAP / 4) { fprintf(stderr, "mcrt: shadow table full\n"); _exit(72); } memset(g, 0, sizeof *g); g->epoch = epoch_; g->key = key; return g; }
		if (g->key == key) return g;
		i = (i + 1) & (GCAP - 1);
	}
}
static void race(char const *what, void *a, int other) { char b[256]; snprintf(b, sizeof b, "data race: %s by T%d (%s object) conflicts with an unordered access by T%d", what, cur_, in_arena(a) ? "heap" : "static", other); fail_now(b); }
static void check_arena(void *a, size_t n) {
	if (!in_arena(a)) return;
	size_t o = (char *) a - arena_;
	for (size_t i = o / 16; i <= (o + n - 1) / 16; ++i) if (ashadow_[i] != 1) fail_now(ashadow_[i] == 2 ? "use after free" : "access outside of allocated memory");
}
static void access(void *a, size_t n, bool w, bool at) {
	if (!n) return;
	check_arena(a, n);
	vclock &vc = fib_[cur_].vc;
	u64 lo = (u64) a, hi = lo + n;
	for (u64 k = lo >> 3; k <= (hi - 1) >> 3; ++k) {
		granule *g = gfind(k);
		unsigned b0 = (k << 3) < lo ? (unsigned) (lo & 7) : 0, b1 = ((k + 1) << 3) > hi ? (unsigned) ((hi - 1) & 7) + 1 : 8;
		for (unsigned b = b0; b < b1; ++b) {
			cell &c = g->b[b];
			for (int t = 0; t <= nthreads_; ++t) {
				if (t == cur_) continue;
				u32 v = vc.c[t];
				if (c.w[t] > v) race(w ? "write" : "read", a, t);
				if (!at && c.aw[t] > v) race(w ? "write" : "read", a, t);
				if (w && c.r[t] > v) race("write", a, t);
				if (w && !at && c.ar[t] > v) race("write", a, t);
			}
			(at ? (w ? c.aw : c.ar) : (w ? c.w : c.r))[cur_] = vc.c[cur_];
		}
	}
}
// exception objects come from the C heap, which may reuse an address: they start without an access history
static void forget(void *a, size_t n) { for (u64 k = (u64) a >> 3; k <= ((u64) a + n - 1) >> 3; ++k) { granule *g = gfind(k); memset(g->b, 0, sizeof g->b); } }
EXP void *__cxa_allocate_exception(size_t n) noexcept {
	static void *(*real)(size_t) = (void *(*)(size_t)) dlsym(RTLD_NEXT, "__cxa_allocate_exception");
	void *p = real(n);
	if (in_exec_ && n) { bool o = rt_; rt_ = true; forget(p, n); rt_ = o; }
	return p;
}
static inline void plain_access(void *a, size_t n, bool w) { access(a, n, w, false); }
static inline bool own_stack(void *a) { return cur_ && (char *) a >= fib_[cur_].stk && (char *) a < fib_[cur_].stk + (256 << 10) && false; }
static inline void hook(void *a, size_t n, bool w) {
	if (rt_ || !in_exec_) return;
	rt_ = true; plain_access(a, n, w); rt_ = false;
}

#define RW(n) EXP void __tsan_read##n(void *a) { hook(a, n, false); } EXP void __tsan_write##n(void *a) { hook(a, n, true); } \
	EXP void __tsan_unaligned_read##n(void *a) { hook(a, n, false); } EXP void __tsan_unaligned_write##n(void *a) { hook(a, n, true); } \
	EXP void __tsan_volatile_read##n(void *a) { hook(a, n, false); } EXP void __tsan_volatile_write##n(void *a) { hook(a, n, true); } \
	EXP void __tsan_unaligned_volatile_read##n(void *a) { hook(a, n, false); } EXP void __tsan_unaligned_volatile_write##n(void *a) { hook(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXP void __tsan_read_range(void *a, size_t n) { hook(a, n, false); }
EXP void __tsan_write_range(void *a, size_t n) { hook(a, n, true); }
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void *) {}
EXP void __tsan_func_exit(void *) {}
EXP void __tsan_vptr_update(void *a, void *) { hook(a, 8, true); }
EXP void __tsan_vptr_read(void *a) { hook(a, 8, false); }
EXP void __tsan_mutex_create(void *, unsigned) {}
EXP void __tsan_mutex_destroy(void *, unsigned) {}
EXP void __tsan_mutex_pre_lock(void *, unsigned) {}
EXP void __tsan_mutex_post_lock(void *, unsigned, int) {}
EXP int __tsan_mutex_pre_unlock(void *, unsigned) { return 0; }
EXP void __tsan_mutex_post_unlock(void *, unsigned) {}
EXP void __tsan_mutex_pre_signal(void *, unsigned) {}
EXP void __tsan_mutex_post_signal(void *, unsigned) {}
EXP void __tsan_acquire(void *) {}
EXP void __tsan_release(void *) {}

static inline void rawcpy(void *d, void const *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
EXP void *memcpy(void *d, void const *s, size_t n) { if (in_exec_ && !rt_ && cur_) { hook((void *) s, n, false); hook(d, n, true); } rawcpy(d, s, n); return d; }
EXP void *memmove(void *d, void const *s, size_t n) {
	if (in_exec_ && !rt_ && cur_) { hook((void *) s, n, false); hook(d, n, true); }
	if ((char *) d <= (char *) s || (char *) d >= (char *) s + n) rawcpy(d, s, n);
	else { void *dd = (char *) d + n - 1; void const *ss = (char const *) s + n - 1; size_t c = n; asm volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(c)::"memory"); }
	return d;
}
EXP void *memset(void *d, int v, size_t n) { if (in_exec_ && !rt_ && cur_) hook(d, n, true); void *dd = d; size_t c = n; asm volatile("rep stosb" : "+D"(dd), "+c"(c) : "a"(v) : "memory"); return d; }

// ------------------------------------------------------------------ sync objects
struct astore { u64 val[2]; u64 h; vclock rel; int tid; u32 clk; };
struct sobj {
	void *addr; u32 epoch; int id;
	u64 h; vclock vc, vcr;
	int owner, count;                // mutex / rwlock writer
	int readers; int rd[MAXT];
	int nwait;
	// atomics
	int nst; astore st[24]; int seen[MAXT]; int asize;
	struct { u32 clk; int idx; } log[MAXT][24]; int nlog[MAXT]; // which store each load read, for read-read coherence
};
static sobj *so_; static int const SOCAP = 512; static int socount_;
static sobj *sget(void *a) {
	size_t i = ((u64) a * 0x9E3779B97F4A7C15ull) >> 55;
	for (;;) {
		i &= SOCAP - 1; sobj *s = &so_[i];
		if (s->epoch != epoch_) {
			if (++socount_ > SOCAP - 64) { fprintf(stderr, "mcrt: too many sync objects\n"); _exit(72); }
			s->addr = a; s->epoch = epoch_; s->id = socount_; s->vc = {}; s->vcr = {}; s->owner = -1; s->count = 0; s->readers = 0; s->nwait = 0; s->nst = 0; s->asize = 0;
			memset(s->rd, 0, sizeof s->rd); memset(s->seen, 0, sizeof s->seen); memset(s->nlog, 0, sizeof s->nlog);
			s->h = mix(0xABCD, in_arena(a) ? (u64) ((char *) a - arena_) : (u64) a);
			return s;
		}
		if (s->addr == a) return s;
		++i;
	}
}
static inline void wr(fiber &f, sobj *s, u64 op) { f.h = mix(f.h, mix(s->h, op)); s->h = mix(s->h, f.h); }
static inline void tick(fiber &f) { ++f.vc.c[f.tid]; }

static void to_main() {
	fiber &f = fib_[cur_]; (void) f;
	auto *g = __cxxabiv1::__cxa_get_globals(); f.eh = *g;
	mcrt_switch(&f.sp, main_sp_);
	*__cxxabiv1::__cxa_get_globals() = f.eh;
}
// scheduling point: returns when this thread is chosen and its pending op is enabled
static void sched(pend_kind k, void *obj, char const *what, void *obj2 = nullptr) {
	fiber &f = fib_[cur_];
	if (f.skip_next && (k == P_POINT || k == P_LOCK || k == P_RDLOCK || k == P_WRLOCK)) {
		f.skip_next = false;
		// the deferred call was just scheduled; blocked operations still have to wait
		bool en = true;
		if (k == P_LOCK) { sobj *s = sget(obj); en = s->owner < 0 || s->owner == f.tid; }
		else if (k == P_WRLOCK) { sobj *s = sget(obj); en = s->owner < 0 && s->readers == 0; }
		else if (k == P_RDLOCK) { sobj *s = sget(obj); en = s->owner < 0; }
		if (en) { trace("  T%d   %s obj#%d\n", f.tid, what, obj ? sget(obj)->id : 0); return; }
	}
	f.skip_next = false;
	f.pk = k; f.obj = obj; f.obj2 = obj2; f.what = what;
	bool o = rt_; rt_ = true; to_main(); rt_ = o;
	f.pk = P_RUN;
}
static inline bool threaded() { return in_exec_ && cur_ != 0; }

static void do_lock(sobj *s, fiber &f) { s->owner = f.tid; ++s->count; vjoin(f.vc, s->vc); wr(f, s, 1); }
static inline int mkind(pthread_mutex_t *m) { return m->__data.__kind & 3; }

EXP int pthread_mutex_lock(pthread_mutex_t *m) {
	if (!in_exec_) return 0;
	rtguard g; fiber &f = fib_[cur_]; check_arena(m, sizeof *m); sobj *s = sget(m);
	if (s->owner == f.tid) { if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) { ++s->count; return 0; } if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; fail_now("deadlock: thread locks a mutex it already holds"); }
	if (cur_ == 0) { if (s->owner >= 0) fail_now("a mutex is still held after all threads ended"); }
	else sched(P_LOCK, m, "lock");
	s = sget(m); check_arena(m, sizeof *m);
	do_lock(s, f);
	return 0;
}
EXP int pthread_mutex_trylock(pthread_mutex_t *m) {
	if (!in_exec_) return 0;
	rtguard g; fiber &f = fib_[cur_]; check_arena(m, sizeof *m);
	if (cur_) sched(P_POINT, m, "trylock");
	sobj *s = sget(m);
	if (s->owner == f.tid && mkind(m) == PTHREAD_MUTEX_RECURSIVE) { ++s->count; return 0; }
	if (s->owner >= 0) { wr(f, s, 2); trace("  T%d   trylock failed\n", cur_); return EBUSY; }
	do_lock(s, f); return 0;
}
EXP int pthread_mutex_unlock(pthread_mutex_t *m) {
	if (!in_exec_) return 0;
	rtguard g; fiber &f = fib_[cur_]; check_arena(m, sizeof *m); 
	if (cur_ && prog_->unlock_point) sched(P_POINT, m, "unlock");
	sobj *s = sget(m);
	if (s->owner != f.tid) fail_now("unlock of a mutex that this thread does not hold");
	if (--s->count > 0) return 0;
	s->owner = -1; s->vc = f.vc; wr(f, s, 3); tick(f);
	return 0;
}
EXP int pthread_mutex_init(pthread_mutex_t *m, pthread_mutexattr_t const *a) {
	rawcpy(m, (pthread_mutex_t[1]){PTHREAD_MUTEX_INITIALIZER}, sizeof *m);
	if (a) { int t; pthread_mutexattr_gettype(a, &t); m->__data.__kind = t; }
	if (in_exec_) { rtguard g; sobj *s = sget(m); s->owner = -1; s->count = 0; }
	return 0;
}
EXP int pthread_mutex_destroy(pthread_mutex_t *m) { if (in_exec_) { rtguard g; if (sget(m)->owner >= 0) fail_now("destruction of a locked mutex"); } return 0; }
EXP int pthread_mutex_timedlock(pthread_mutex_t *m, struct timespec const *) {
	if (!in_exec_) return 0;
	{ rtguard g; fiber &f = fib_[cur_]; if (cur_) sched(P_POINT, m, "timedlock"); sobj *s = sget(m); if (s->owner >= 0) { int k = choose_raw(2, "timeout"); f.h = mix(f.h, 900 + k); if (k) { wr(f, s, 4); return ETIMEDOUT; } } }
	return pthread_mutex_lock(m);
}
EXP int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, struct timespec const *t) { return pthread_mutex_timedlock(m, t); }

static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
	if (!in_exec_) return 0;
	rtguard g; fiber &f = fib_[cur_]; check_arena(c, sizeof *c);
	if (cur_ == 0) fail_now("deadlock: blocking wait with no other thread running");
	sched(P_POINT, c, "wait (release+sleep)");
	sobj *sm = sget(m), *sc = sget(c);
	if (sm->owner != f.tid) fail_now("condition wait without holding the mutex");
	int cnt = sm->count; sm->count = 0; sm->owner = -1; sm->vc = f.vc; wr(f, sm, 3); tick(f);
	wr(f, sc, 5); ++sc->nwait; f.signaled = false; f.timed = timed; f.timedout = false; f.cvseq = ++cvseq_;
	sched(P_CVWAIT, c, "wake", m);
	// woken and mutex free
	sm = sget(m); check_arena(m, sizeof *m);
	do_lock(sm, f); sm->count = cnt;
	return f.timedout ? ETIMEDOUT : 0;
}
EXP int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait_impl(c, m, false); }
EXP int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, struct timespec const *) { return cond_wait_impl(c, m, true); }
EXP int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, struct timespec const *) { return cond_wait_impl(c, m, true); }
static int waiters(void *c, int *out) { int n = 0; for (int t = 1; t <= nthreads_; ++t) if (fib_[t].pk == P_CVWAIT && fib_[t].obj == c && !fib_[t].signaled) out[n++] = t; return n; }
EXP int pthread_cond_signal(pthread_cond_t *c) {
	if (!in_exec_) return 0;
	rtguard g; fiber &f = fib_[cur_]; check_arena(c, sizeof *c);
	if (cur_) sched(P_POINT, c, "notify_one");
	check_arena(c, sizeof *c);
	sobj *s = sget(c); int w[MAXT]; int n = waiters(c, w);
	wr(f, s, 6);
	if (n) { int k = choose_raw(n, "which waiter"); f.h = mix(f.h, 700 + w[k]); s->h = mix(s->h, 700 + w[k]); fib_[w[k]].signaled = true; fib_[w[k]].h = mix(fib_[w[k]].h, s->h); --s->nwait; trace("  T%d   notify_one wakes T%d\n", cur_, w[k]); }
	return 0;
}
EXP int pthread_cond_broadcast(pthread_cond_t *c) {
	if (!in_exec_) return 0;
	rtguard g; fiber &f = fib_[cur_]; check_arena(c, sizeof *c);
	if (cur_) sched(P_POINT, c, "notify_all");
	check_arena(c, sizeof *c);
	sobj *s = sget(c); wr(f, s, 7); int w[MAXT]; int n = waiters(c, w);
	for (int i = 0; i < n; ++i) { fib_[w[i]].signaled = true; fib_[w[i]].h = mix(fib_[w[i]].h, s->h); }
	s->nwait = 0;
	return 0;
}
EXP int pthread_cond_init(pthread_cond_t *c, pthread_condattr_t const *) { memset(c, 0, sizeof *c); return 0; }
EXP int pthread_cond_destroy(pthread_cond_t *c) { if (in_exec_) { rtguard g; int w[MAXT]; if (waiters(c, w)) fail_now("destruction of a condition variable with waiters"); } return 0; }

EXP int pthread_rwlock_init(pthread_rwlock_t *l, pthread_rwlockattr_t const *) { memset(l, 0, sizeof *l); if (in_exec_) { rtguard g; sobj *s = sget(l); s->owner = -1; s->readers = 0; memset(s->rd, 0, sizeof s->rd); } return 0; }
EXP int pthread_rwlock_destroy(pthread_rwlock_t *l) { if (in_exec_) { rtguard g; sobj *s = sget(l); if (s->owner >= 0 || s->readers) fail_now("destruction of a locked reader/writer lock"); } return 0; }
static void rd_take(sobj *s, fiber &f) { ++s->readers; ++s->rd[f.tid]; vjoin(f.vc, s->vc); wr(f, s, 11); }
static void wr_take(sobj *s, fiber &f) { s->owner = f.tid; vjoin(f.vc, s->vc); vjoin(f.vc, s->vcr); wr(f, s, 12); }
EXP int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
	if (!in_exec_) return 0;
	rtguard g; fiber &f = fib_[cur_]; check_arena(l, sizeof *l); sobj *s = sget(l);
	if (s->owner == f.tid) return EDEADLK;
	if (cur_ == 0) { if (s->owner >= 0) fail_now("a reader/writer lock is still held after all threads ended"); } else sched(P_RDLOCK, l, "rdlock");
	rd_take(sget(l), f); return 0;
}
EXP int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
	if (!in_exec_) return 0;
	rtguard g; fiber &f = fib_[cur_]; check_arena(l, sizeof *l); sobj *s = sget(l);
	if (s->owner == f.tid) return EDEADLK;
	if (cur_ == 0) { if (s->owner >= 0 || s->readers) fail_now("a reader/writer lock is still held after all threads ended"); } else sched(P_WRLOCK, l, "wrlock");
	wr_take(sget(l), f); return 0;
}
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
	if (!in_exec_) return 0;
	rtguard g; fiber &f = fib_[cur_]; check_arena(l, sizeof *l); if (cur_) sched(P_POINT, l, "tryrdlock");
	sobj *s = sget(l); if (s->owner >= 0) { wr(f, s, 13); return EBUSY; } rd_take(s, f); return 0;
}
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
	if (!in_exec_) return 0;
	rtguard g; fiber &f = fib_[cur_]; check_arena(l, sizeof *l); if (cur_) sched(P_POINT, l, "trywrlock");
	sobj *s = sget(l); if (s->owner >= 0 || s->readers) { wr(f, s, 14); return EBUSY; } wr_take(s, f); return 0;
}
EXP int pthread_rwlock_unlock(pthread_rwlock_t *l) {
	if (!in_exec_) return 0;
	rtguard g; fiber &f = fib_[cur_]; check_arena(l, sizeof *l); if (cur_ && prog_->unlock_point) sched(P_POINT, l, "rwunlock");
	sobj *s = sget(l);
	if (s->owner == f.tid) { s->owner = -1; s->vc = f.vc; s->vcr = {}; wr(f, s, 15); tick(f); }
	else if (s->rd[f.tid] > 0) { --s->rd[f.tid]; --s->readers; vjoin(s->vcr, f.vc); wr(f, s, 16); tick(f); }
	else fail_now("unlock of a reader/writer lock that this thread does not hold");
	return 0;
}
EXP int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, struct timespec const *) { return pthread_rwlock_tryrdlock(l) == 0 ? 0 : ETIMEDOUT; }
EXP int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, struct timespec const *) { return pthread_rwlock_trywrlock(l) == 0 ? 0 : ETIMEDOUT; }
EXP int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t, struct timespec const *t) { return pthread_rwlock_timedrdlock(l, t); }
EXP int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t, struct timespec const *t) { return pthread_rwlock_timedwrlock(l, t); }

EXP int sched_yield(void) { if (threaded() && !rt_) { rtguard g; sched(P_YIELD, nullptr, "yield"); fib_[cur_].h = mix(fib_[cur_].h, 0x77); } return 0; }
EXP void mcrt_atomic_point(void *obj, char const *what) { if (threaded()) { rtguard g; sched(P_POINT, obj, what); wr(fib_[cur_], sget(obj), 21); } }

// futex (std::atomic wait/notify in headers)
EXP long syscall(long nr, ...) {
	va_list ap; va_start(ap, nr); long a[6]; for (long &x : a) x = va_arg(ap, long); va_end(ap);
	if (nr == SYS_futex && threaded() && !rt_) {
		rtguard g; fiber &f = fib_[cur_]; int op = (int) a[1] & 127; int *p = (int *) a[0];
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
			sched(P_POINT, p, "futex wait"); sobj *s = sget(p); wr(f, s, 31);
			if (*p != (int) a[2]) { errno = EAGAIN; return -1; }
			f.signaled = false; f.timed = false; sched(P_FUTEX, p, "futex wake"); return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
			sched(P_POINT, p, "futex notify"); sobj *s = sget(p); wr(f, s, 32); int n = 0;
			for (int t = 1; t <= nthreads_ && n < (int) a[2]; ++t) if (fib_[t].pk == P_FUTEX && fib_[t].obj == p && !fib_[t].signaled) { fib_[t].signaled = true; fib_[t].h = mix(fib_[t].h, s->h); ++n; }
			return n;
		}
	}
	long r; register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5];
	asm volatile("syscall" : "=a"(r) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	if (r < 0 && r > -4096) { errno = (int) -r; return -1; }
	return r;
}

// ------------------------------------------------------------------ atomics
enum { MO_RLX, MO_CONSUME, MO_ACQ, MO_REL, MO_AR, MO_SC };
static inline bool acq(int m) { return m == MO_ACQ || m == MO_CONSUME || m == MO_AR || m == MO_SC; }
static inline bool rel(int m) { return m == MO_REL || m == MO_AR || m == MO_SC; }
static void aprep(sobj *s, void *a, int sz) {
	u64 v[2] = {0, 0}; rawcpy(v, a, sz);
	if (s->nst == 0 || s->asize != sz || s->st[s->nst - 1].val[0] != v[0] || s->st[s->nst - 1].val[1] != v[1]) {
		s->nst = 1; s->asize = sz; memset(&s->st[0], 0, sizeof s->st[0]); s->st[0].val[0] = v[0]; s->st[0].val[1] = v[1]; s->st[0].h = mix(s->h, v[0]); memset(s->seen, 0, sizeof s->seen); memset(s->nlog, 0, sizeof s->nlog);
	}
}
static void apush(sobj *s, fiber &f, u64 v0, u64 v1, int mo, bool rmw) {
	if (s->nst == 24) { memmove(&s->st[0], &s->st[1], sizeof(astore) * 23); --s->nst; for (int &x : s->seen) if (x) --x; for (int t = 0; t < MAXT; ++t) for (int i = 0; i < s->nlog[t]; ++i) if (s->log[t][i].idx) --s->log[t][i].idx; }
	astore &n = s->st[s->nst]; astore const *prev = s->nst ? &s->st[s->nst - 1] : nullptr;
	n.val[0] = v0; n.val[1] = v1; n.rel = {}; n.tid = f.tid; n.clk = f.vc.c[f.tid];
	if (rmw && prev) n.rel = prev->rel;
	if (rel(mo)) vjoin(n.rel, f.vc); else if (f.has_relf) vjoin(n.rel, f.relf);
	wr(f, s, 41); n.h = s->h;
	s->seen[f.tid] = s->nst; ++s->nst;
	tick(f);
}
static void aread_sync(sobj *s, fiber &f, int idx, int mo) {
	if (acq(mo)) vjoin(f.vc, s->st[idx].rel); else vjoin(f.acqf, s->st[idx].rel);
	s->seen[f.tid] = idx;
	int &n = s->nlog[f.tid]; if (n && (s->log[f.tid][n - 1].clk == f.vc.c[f.tid] || n == 24)) --n;
	s->log[f.tid][n++] = {f.vc.c[f.tid], idx};
}
static void aload(void *a, int sz, int mo, u64 *out) {
	if (!in_exec_) { rawcpy(out, a, sz); return; }
	rtguard g; fiber &f = fib_[cur_];
	if (cur_) sched(P_POINT, a, "atomic load");
	access(a, sz, false, true);
	sobj *s = sget(a); aprep(s, a, sz);
	int last = s->nst - 1, lo = s->seen[cur_];
	for (int i = last; i > lo; --i) if (s->st[i].tid == cur_ || s->st[i].clk <= f.vc.c[s->st[i].tid]) { if (s->st[i].tid || i == 0 || s->st[i].clk) lo = i; break; }
	for (int t = 0; t <= nthreads_; ++t) for (int i = 0; i < s->nlog[t]; ++i) if (s->log[t][i].clk <= f.vc.c[t] && s->log[t][i].idx > lo) lo = s->log[t][i].idx;
	int idx = last;
	if (cur_ && mo != MO_SC && stale_left_ > 0 && lo < last) {
		int k = choose_raw(last - lo + 1, "which store is read"); idx = last - k;
		if (k) { --stale_left_; trace("  T%d   stale read (%d stores behind)\n", cur_, k); }
	}
	f.h = mix(f.h, mix(s->st[idx].h, 42));
	aread_sync(s, f, idx, mo);
	out[0] = s->st[idx].val[0]; out[1] = s->st[idx].val[1];
}
static void astore_(void *a, int sz, int mo, u64 v0, u64 v1) {
	if (!in_exec_) { u64 v[2] = {v0, v1}; rawcpy(a, v, sz); return; }
	rtguard g; fiber &f = fib_[cur_];
	if (cur_) sched(P_POINT, a, "atomic store");
	access(a, sz, true, true);
	sobj *s = sget(a); aprep(s, a, sz);
	u64 v[2] = {v0, v1}; rawcpy(a, v, sz); v[0] = v[1] = 0; rawcpy(v, a, sz);
	apush(s, f, v[0], v[1], mo, false);
}
template<class F> static void armw(void *a, int sz, int mo, F fn, u64 *old) {
	u64 v[2] = {0, 0};
	if (!in_exec_) { rawcpy(v, a, sz); old[0] = v[0]; old[1] = v[1]; fn(v); rawcpy(a, v, sz); return; }
	rtguard g; fiber &f = fib_[cur_];
	if (cur_) sched(P_POINT, a, "atomic rmw");
	access(a, sz, true, true);
	sobj *s = sget(a); aprep(s, a, sz);
	rawcpy(v, a, sz); old[0] = v[0]; old[1] = v[1];
	aread_sync(s, f, s->nst - 1, mo);
	fn(v); rawcpy(a, v, sz); v[0] = v[1] = 0; rawcpy(v, a, sz);
	apush(s, f, v[0], v[1], mo, true);
}
static bool acas(void *a, int sz, u64 *exp, u64 d0, u64 d1, int mo, int fmo, bool weak) {
	u64 v[2] = {0, 0};
	if (!in_exec_) { rawcpy(v, a, sz); if (v[0] == exp[0] && v[1] == exp[1]) { u64 d[2] = {d0, d1}; rawcpy(a, d, sz); return true; } exp[0] = v[0]; exp[1] = v[1]; return false; }
	rtguard g; fiber &f = fib_[cur_];
	if (cur_) sched(P_POINT, a, weak ? "atomic cas (weak)" : "atomic cas");
	sobj *s = sget(a); 
	access(a, sz, false, true);
	aprep(s, a, sz); rawcpy(v, a, sz);
	if (v[0] == exp[0] && v[1] == exp[1]) {
		if (weak && cur_ && weak_left_ > 0) {
			int k = choose_raw(2, "weak cas fails spuriously");
			if (k) { --weak_left_; f.h = mix(f.h, mix(s->st[s->nst - 1].h, 43)); trace("  T%d   cas fails spuriously\n", cur_); aread_sync(s, f, s->nst - 1, fmo); return false; }
		}
		access(a, sz, true, true);
		aread_sync(s, f, s->nst - 1, mo);
		u64 d[2] = {d0, d1}; rawcpy(a, d, sz); d[0] = d[1] = 0; rawcpy(d, a, sz);
		apush(s, f, d[0], d[1], mo, true);
		return true;
	}
	f.h = mix(f.h, mix(s->st[s->nst - 1].h, 44)); trace("  T%d   cas fails\n", cur_);
	aread_sync(s, f, s->nst - 1, fmo);
	exp[0] = v[0]; exp[1] = v[1];
	return false;
}
#define AT(bits, T) \
	EXP T __tsan_atomic##bits##_load(T const volatile *a, int mo) { u64 o[2]={0,0}; aload((void *) a, sizeof(T), mo, o); T r; rawcpy(&r, o, sizeof r); return r; } \
	EXP void __tsan_atomic##bits##_store(T volatile *a, T v, int mo) { u64 o[2] = {0, 0}; rawcpy(o, &v, sizeof v); astore_((void *) a, sizeof(T), mo, o[0], o[1]); } \
	EXP T __tsan_atomic##bits##_exchange(T volatile *a, T v, int mo) { u64 o[2]={0,0}; armw((void *) a, sizeof(T), mo, [&](u64 *x) { rawcpy(x, &v, sizeof v); }, o); T r; rawcpy(&r, o, sizeof r); return r; } \
	OPX(bits, T, add, x + v) OPX(bits, T, sub, x - v) OPX(bits, T, and, x & v) OPX(bits, T, or, x | v) OPX(bits, T, xor, x ^ v) OPX(bits, T, nand, ~(x & v)) \
	EXP int __tsan_atomic##bits##_compare_exchange_strong(T volatile *a, T *e, T d, int mo, int fmo) { u64 x[2] = {0, 0}, y[2] = {0, 0}; rawcpy(x, e, sizeof d); rawcpy(y, &d, sizeof d); bool r = acas((void *) a, sizeof(T), x, y[0], y[1], mo, fmo, false); if (!r) rawcpy(e, x, sizeof d); return r; } \
	EXP int __tsan_atomic##bits##_compare_exchange_weak(T volatile *a, T *e, T d, int mo, int fmo) { u64 x[2] = {0, 0}, y[2] = {0, 0}; rawcpy(x, e, sizeof d); rawcpy(y, &d, sizeof d); bool r = acas((void *) a, sizeof(T), x, y[0], y[1], mo, fmo, true); if (!r) rawcpy(e, x, sizeof d); return r; } \
	EXP T __tsan_atomic##bits##_compare_exchange_val(T volatile *a, T e, T d, int mo, int fmo) { u64 x[2] = {0, 0}, y[2] = {0, 0}; rawcpy(x, &e, sizeof d); rawcpy(y, &d, sizeof d); acas((void *) a, sizeof(T), x, y[0], y[1], mo, fmo, false); T r; rawcpy(&r, x, sizeof r); return r; }
#define OPX(bits, T, name, expr) EXP T __tsan_atomic##bits##_fetch_##name(T volatile *a, T v, int mo) { u64 o[2]={0,0}; armw((void *) a, sizeof(T), mo, [&](u64 *xx) { T x; rawcpy(&x, xx, sizeof x); T y = (T) (expr); rawcpy(xx, &y, sizeof y); }, o); T r; rawcpy(&r, o, sizeof r); return r; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long) AT(128, unsigned __int128)
EXP void __tsan_atomic_thread_fence(int mo) {
	if (!in_exec_) return;
	rtguard gg; fiber &f = fib_[cur_];
	if (acq(mo)) vjoin(f.vc, f.acqf);
	if (rel(mo)) { f.relf = f.vc; f.has_relf = true; tick(f); }
}
EXP void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ history
EXP int mcrt_call(int op, long arg) {
	rtguard g; fiber &f = fib_[cur_];
	if (cur_) { sched(P_CALL, nullptr, "call"); f.skip_next = true; f.h = mix(f.h, mix(retsum_, 51 + op)); }
	if (nhist_ >= MAXH) { fprintf(stderr, "mcrt: history too long\n"); _exit(72); }
	event &e = hist_[nhist_]; e = {cur_, op, arg, 0, 0, now_++, -1};
	trace("  T%d call op%d(%ld)\n", cur_, op, arg);
	return nhist_++;
}
EXP void mcrt_ret(int id, long res, long res2) {
	rtguard g; fiber &f = fib_[cur_];
	f.skip_next = false;
	hist_[id].res = res; hist_[id].res2 = res2; hist_[id].ret_t = now_++;
	f.h = mix(f.h, mix((u64) res, (u64) res2 + 61));
	retsum_ += mix(f.h, 0x5151 + f.tid);
	trace("  T%d ret  op%d -> %ld,%ld\n", cur_, hist_[id].op, res, res2);
}
EXP void const *mcrt_user(void) { return prog_->user; }
EXP int mcrt_fault(char const *what) {
	if (!threaded() || faults_left_ <= 0) return 0;
	rtguard g; int k = choose_raw(2, what);
	fib_[cur_].h = mix(fib_[cur_].h, 0x2000 + k);
	if (k) { --faults_left_; trace("  T%d fault: %s\n", cur_, what); }
	return k;
}
EXP int mcrt_self(void) { return cur_; }
EXP void mcrt_observe(u64 v) { outsig_ = mix(outsig_, v); }

// ------------------------------------------------------------------ execution
static void fiber_entry() {
	*__cxxabiv1::__cxa_get_globals() = {nullptr, 0};
	rt_ = false;
	try { prog_->thread(cur_); } catch (...) { mcrt_fail("an exception escaped from thread T%d", cur_); }
	rt_ = true;
	fib_[cur_].pk = P_DONE;
	to_main();
	abort();
}
static bool enabled(fiber &f) {
	switch (f.pk) {
		case P_START: case P_POINT: case P_CALL: return true;
		case P_YIELD: return !yield_block_[f.tid];
		case P_LOCK: return sget(f.obj)->owner < 0;
		case P_CVWAIT: return f.signaled && sget(f.obj2)->owner < 0;
		case P_FUTEX: return f.signaled;
		case P_RDLOCK: return sget(f.obj)->owner < 0;
		case P_WRLOCK: { sobj *s = sget(f.obj); return s->owner < 0 && s->readers == 0; }
		default: return false;
	}
}
static u64 state_key() {
	u64 k = 0x1234; for (int t = 1; t <= nthreads_; ++t) k = mix(k, fib_[t].h);
	k = mix(k, (u64) faults_left_ << 48 | (u64) spurious_left_ << 32 | (u64) weak_left_ << 16 | (u64) stale_left_);
	return prog_->preemptions >= 0 ? mix(k, last_run_) : k;
}
static void resume(int t) {
	fiber &f = fib_[t];
	cur_ = t;
	rt_ = true;
	mcrt_switch(&main_sp_, f.sp);
	rt_ = true;
	cur_ = 0;
}
// returns false if pruned
static bool run_execution(bool explore) {
	pos_ = 0; ++epoch_; gcount_ = 0; socount_ = 0; steps_ = 0; nhist_ = 0; now_ = 0; retsum_ = 0; outsig_ = 0x99; cvseq_ = 0; tracelen_ = 0;
	for (int t = 0; t < MAXT; ++t) { memset(ashadow_ + ARENA_PER * t / 16, 0, (apos_[t] + 64) / 16 + 1); apos_[t] = 0; }
	alive_ = 0;
	nthreads_ = prog_->nthreads;
	preempt_left_ = prog_->preemptions; spurious_left_ = prog_->spurious; faults_left_ = prog_->faults; weak_left_ = prog_->weakfail; stale_left_ = prog_->stale;
	size_t prefix = stack_.n;
	memset((void *) fib_, 0, 0);
	for (int t = 0; t <= nthreads_; ++t) {
		fiber &f = fib_[t]; char *stk = f.stk; 
		memset((void *) &f, 0, sizeof f); f.stk = stk; f.tid = t; f.vc.c[t] = 1; f.h = mix(0xF00D, t); f.pk = P_START;
	}
	fib_[0].pk = P_RUN;
	cur_ = 0; last_run_ = 0;
	in_exec_ = true; arena_on_ = true;
	alarm(120);
	rt_ = false; prog_->setup(); rt_ = true;
	for (int t = 1; t <= nthreads_; ++t) {
		fiber &f = fib_[t];
		vjoin(f.vc, fib_[0].vc);
		if (!f.stk) f.stk = (char *) mmap(nullptr, 256 << 10, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		void **sp = (void **) (f.stk + (256 << 10)); *--sp = nullptr; *--sp = (void *) fiber_entry; for (int i = 0; i < 6; ++i) *--sp = nullptr;
		f.sp = sp;
	}
	tick(fib_[0]);
	bool pruned = false, stuck = false;
	for (;;) {
		int en[MAXT * 2], kind[MAXT * 2], n = 0; // kind 0 normal, 1 spurious, 2 timeout
		bool last_en = false;
		if (last_run_ && enabled(fib_[last_run_])) { en[n] = last_run_; kind[n++] = 0; last_en = true; }
		for (int t = 1; t <= nthreads_; ++t) if (t != last_run_ && enabled(fib_[t])) { en[n] = t; kind[n++] = 0; }
		if (n == 0) { // only yielders left?
			bool any = false;
			for (int t = 1; t <= nthreads_; ++t) if (fib_[t].pk == P_YIELD) { yield_block_[t] = false; any = true; }
			if (any) { for (int t = 1; t <= nthreads_; ++t) if (fib_[t].pk == P_YIELD) { en[n] = t; kind[n++] = 0; } }
		}
		if (n == 0) // time passes: timed waits expire
			for (int t = 1; t <= nthreads_; ++t) if (fib_[t].pk == P_CVWAIT && !fib_[t].signaled && fib_[t].timed && sget(fib_[t].obj2)->owner < 0) { en[n] = t; kind[n++] = 2; }
		if (n == 0) {
			bool all = true; for (int t = 1; t <= nthreads_; ++t) if (fib_[t].pk != P_DONE) all = false;
			if (all) break;
			// everything is asleep: the harness decides whether each pending operation is allowed to block here
			char const *why = prog_->blocked ? (rt_ = true, prog_->blocked(hist_, nhist_)) : "";
			if (!why) { stuck = true; break; }
			char b[700]; int m = snprintf(b, sizeof b, "deadlock/lost wakeup: %s; no thread can proceed:", why);
			for (int t = 1; t <= nthreads_; ++t) m += snprintf(b + m, sizeof b - m, " T%d %s;", t, fib_[t].pk == P_DONE ? "done" : fib_[t].pk == P_CVWAIT ? (fib_[t].signaled ? "woken, waiting for mutex" : "asleep on condition variable") : fib_[t].pk == P_LOCK ? "waiting for mutex" : "blocked");
			fail_now(b);
		}
		if (spurious_left_ > 0)
			for (int t = 1; t <= nthreads_; ++t) if (fib_[t].pk == P_CVWAIT && !fib_[t].signaled && sget(fib_[t].obj2)->owner < 0) { en[n] = t; kind[n++] = 1; }
		// preemption bound: continuing is free, switching away from an enabled thread costs one
		if (preempt_left_ == 0 && last_en) { int m = 1; for (int i = 1; i < n; ++i) if (kind[i] == 1) {} n = m; }
		if (explore && pos_ >= prefix) {
			if (!visited_.improve(state_key(), preempt_left_ < 0 ? 0 : preempt_left_)) { pruned = true; break; }
			++n_states_;
		}
		int k = choose_raw(n, "schedule");
		int t = en[k];
		if (last_en && t != last_run_ && preempt_left_ > 0) --preempt_left_;
		++n_trans_;
		if (++steps_ > HORIZON) fail_now("livelock: execution exceeds the step horizon");
		fiber &f = fib_[t];
		if (kind[k] == 1) { --spurious_left_; sobj *s = sget(f.obj); f.signaled = true; --s->nwait; f.h = mix(f.h, 0x5B); s->h = mix(s->h, 0x5B + t); trace("  T%d   spurious wakeup\n", t); }
		if (kind[k] == 2) { sobj *s = sget(f.obj); f.signaled = true; f.timedout = true; --s->nwait; f.h = mix(f.h, 0x7B); }
		for (int u = 1; u <= nthreads_; ++u) if (u != t) yield_block_[u] = false;
		if (f.pk == P_YIELD) {}
		trace("%3d T%d %s obj#%d\n", steps_, t, f.what ? f.what : "start", f.obj ? sget(f.obj)->id : 0);
		last_run_ = t; f.h = mix(f.h, 0xEE);
		resume(t);
		if (f.pk == P_YIELD) yield_block_[t] = true;
	}
	if (steps_ > max_depth_) max_depth_ = steps_;
	if (!pruned) {
		for (int t = 1; t <= nthreads_; ++t) vjoin(fib_[0].vc, fib_[t].vc);
		cur_ = 0;
		if (stuck) ++n_stuck_; else if (prog_->finish) { rt_ = false; prog_->finish(); rt_ = true; }
		++n_complete_; rawcpy(lasth_, hist_, sizeof hist_); nlasth_ = nhist_;
		// outcome signature: results per thread in program order
		u64 sig = outsig_; for (int t = 0; t <= nthreads_; ++t) for (int i = 0; i < nhist_; ++i) if (hist_[i].tid == t) sig = mix(sig, mix((u64) hist_[i].op * 31 + hist_[i].arg, mix((u64) hist_[i].res, (u64) hist_[i].res2)));
		outcomes_.improve(sig, 0);
		in_exec_ = false; 
		if (prog_->check) { in_exec_ = true; ++n_checked_; 
			bool ok = prog_->check(hist_, nhist_);
			if (!ok) {
				char b[3000]; int m = snprintf(b, sizeof b, "history has no legal explanation:");
				for (int i = 0; i < nhist_; ++i) m += snprintf(b + m, m < 2900 ? sizeof b - m : 0, " [T%d op%d(%ld)->%ld,%ld @%d..%d]", hist_[i].tid, hist_[i].op, hist_[i].arg, hist_[i].res, hist_[i].res2, hist_[i].call_t, hist_[i].ret_t);
				fail_now(b);
			}
			in_exec_ = false; }
	}
	in_exec_ = false; arena_on_ = false; rt_ = true;
	*__cxxabiv1::__cxa_get_globals() = {nullptr, 0};
	return !pruned;
}
static bool backtrack() {
	// drop choices never reached
	stack_.n = pos_ < stack_.n ? pos_ : stack_.n;
	while (stack_.n) { choice_rec &r = stack_[stack_.n - 1]; if (r.k + 1 < r.n) { ++r.k; return true; } --stack_.n; }
	return false;
}
static void sample(FILE *o) {
	fprintf(o, "\"sample\":["); // last complete history
	for (int i = 0; i < nlasth_; ++i) fprintf(o, "%s\"T%d op%d(%ld)->%ld,%ld @%d..%d\"", i ? "," : "", lasth_[i].tid, lasth_[i].op, lasth_[i].arg, lasth_[i].res, lasth_[i].res2, lasth_[i].call_t, lasth_[i].ret_t);
	fprintf(o, "]");
}
EXP int mcrt_main(int argc, char **argv, program const *progs, int np) {
	__libc_single_threaded = 0;
	rt_ = true;
	char const *only = nullptr, *replay = nullptr; bool list = false; double limit = 0;
	for (int i = 1; i < argc; ++i) {
		if (!strcmp(argv[i], "--list")) list = true;
		else if (!strcmp(argv[i], "--only")) only = argv[++i];
		else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
		else if (!strcmp(argv[i], "--verbose")) verbose_ = true;
		else if (!strcmp(argv[i], "--journal")) journal_path_ = argv[++i];
		else if (!strcmp(argv[i], "--out")) out_path_ = argv[++i];
		else if (!strcmp(argv[i], "--time")) limit = atof(argv[++i]);
	}
	if (list) { for (int i = 0; i < np; ++i) puts(progs[i].name); return 0; }
	arena_ = (char *) mmap((void *) 0x600000000000, ARENA_PER * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	ashadow_ = (u8 *) mmap(nullptr, ARENA_PER * MAXT / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	gr_ = (granule *) calloc(GCAP, sizeof(granule)); so_ = (sobj *) calloc(SOCAP, sizeof(sobj));
	stack_t ss{}; ss.ss_sp = malloc(65536); ss.ss_size = 65536; sigaltstack(&ss, nullptr);
	struct sigaction sa{}; sa.sa_handler = crash_handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
	for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
	setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
	if (replay) {
		char const *c = strchr(replay, ':'); size_t nl = c ? (size_t) (c - replay) : strlen(replay);
		for (int i = 0; i < np; ++i) if (strlen(progs[i].name) == nl && !strncmp(progs[i].name, replay, nl)) {
			prog_ = &progs[i]; stack_.n = 0; replaying_ = true; visited_.clear(); outcomes_.clear();
			if (c) for (char const *p = c + 1; *p >= '0' && *p <= '9';) { char *e; long v = strtol(p, &e, 10); stack_.push({0, (int) v, 0, 0}); p = *e == ',' ? e + 1 : e; }
			run_execution(false);
			printf("replay of %s: no violation\n", prog_->name);
			if (verbose_) (void) !write(1, tracebuf_, tracelen_);
			return 0;
		}
		fprintf(stderr, "no such program\n"); return 73;
	}
	FILE *o = out_path_ ? fopen(out_path_, "w") : stdout;
	for (int i = 0; i < np; ++i) {
		if (only && strcmp(only, progs[i].name)) continue;
		prog_ = &progs[i]; stack_.n = 0; visited_.clear(); outcomes_.clear();
		n_exec_ = n_states_ = n_trans_ = n_complete_ = n_stuck_ = n_checked_ = 0; max_depth_ = 0;
		timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0); double el = 0; bool complete = true;
		do {
			run_execution(true); ++n_exec_;
			if ((n_exec_ & 255) == 0 || n_exec_ >= prog_->max_exec) { timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1); el = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9; if ((limit && el > limit) || n_exec_ >= prog_->max_exec) { complete = !backtrack(); break; } }
		} while (backtrack());
		alarm(0);
		{ timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1); el = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9; }
		// sanity: the first schedule, replayed twice, must be deterministic
		fprintf(o, "{\"scenario\":\"%s\",\"executions\":%ld,\"complete_executions\":%ld,\"ended_blocked\":%ld,\"states\":%ld,\"transitions\":%ld,\"outcomes\":%zu,\"checked\":%ld,\"max_depth\":%d,\"preemption_bound\":%d,\"complete\":%s,\"secs\":%.2f,", prog_->name, n_exec_, n_complete_, n_stuck_, n_states_, n_trans_, outcomes_.n, n_checked_, max_depth_, prog_->preemptions, complete ? "true" : "false", el);
		sample(o); fprintf(o, "}\n"); fflush(o);
	}
	if (o != stdout) fclose(o);
	return 0;
}
