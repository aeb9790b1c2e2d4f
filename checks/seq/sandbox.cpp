// sandbox: every ending x caller signal state, every failing or interrupted system call, output and isolation. The real fork and waitpid run underneath.
#include <dice/template-library/sandbox.hpp>
#include "../../engine/mcseq.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <memory>
#include <map>
using namespace mcs; using dice::template_library::SubProcessResult;
#ifndef THOROUGH
#define THOROUGH 0
#endif
#ifndef PART
#define PART 0
#endif
// memory shared with the sandboxed process: how often things happened there
struct shared { int runs, dtors, after, atexits, handled; pid_t pid, escaped; int seen[8]; }; static shared *S; static pid_t main_pid;
static int fork_errno, wait_eintr, wait_errno, forks, waits; static pid_t last_child;
extern "C" pid_t fork() { static auto real = (pid_t(*)()) dlsym(RTLD_NEXT, "fork"); if (getpid() == main_pid) ++forks; if (fork_errno && getpid() == main_pid) { errno = fork_errno; return -1; } pid_t p = real(); if (p > 0) last_child = p; return p; }
extern "C" pid_t waitpid(pid_t p, int *st, int opt) { static auto real = (pid_t(*)(pid_t, int *, int)) dlsym(RTLD_NEXT, "waitpid"); if (getpid() == main_pid && E.sut) { ++waits; if (wait_eintr > 0) { --wait_eintr; errno = EINTR; return -1; } if (wait_errno) { errno = wait_errno; return -1; } } return real(p, st, opt); }
struct ending { enum { error, result } kind; int v; bool operator==(ending const &) const = default; };
// a guard in the caller's scope: must only be destroyed in the caller
struct guard { ~guard() { if (S) ++S->dtors; } };
struct spawned { ~spawned() { if (getpid() != main_pid) ++S->after; } }; 
// runs the sandbox; nothing may come back to here in the other process
template<typename F> static ending box(F go) {
	ending r{}; try { sut s; SubProcessResult x = go(); r = {ending::result, (int) x}; } catch (std::system_error const &e) { r = {ending::error, e.code().value()}; } catch (...) { if (getpid() == main_pid) { harness h; fail("an unexpected exception reached the caller"); } }
	if (getpid() != main_pid) { S->escaped = getpid(); _exit(99); }
	if (S->escaped) fail("the sandboxed process continued into the caller's code"); return r;
}
static int open_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (d && readdir(d)) ++n; if (d) closedir(d); return n; }
static int children() { int n = 0, st; while (waitpid(-1, &st, WNOHANG) > 0) ++n; return n; }
static constexpr int OK = -1, FAIL = -2;
static int pad_global = 5;
struct sigstate { struct sigaction act[65]; sigset_t mask; sigstate() { memset(this, 0, sizeof *this); for (int i = 1; i < 65; ++i) sigaction(i, nullptr, &act[i]); sigprocmask(SIG_SETMASK, nullptr, &mask); }
	bool same() const { sigstate o; for (int i = 1; i < 65; ++i) if (o.act[i].sa_handler != act[i].sa_handler || o.act[i].sa_flags != act[i].sa_flags) return false; for (int i = 1; i < 65; ++i) if (sigismember(&o.mask, i) != sigismember(&mask, i)) return false; return true; } };
static int handled_here; static void count_signal(int) { if (getpid() == main_pid) ++handled_here; else ++S->handled; }
static void begin() { memset(S, 0, sizeof *S); fork_errno = wait_eintr = wait_errno = forks = waits = handled_here = 0; last_child = 0; }
// the checks that hold after every run that was not disturbed
static void finish(ending got, ending want, int fds, sigstate const &sig, bool ran = true) {
	MC_CHECK(got == want, "the sandbox reports %s %d instead of %s %d", got.kind == ending::error ? "error" : "ending", got.v, want.kind == ending::error ? "error" : "ending", want.v);
	MC_CHECK(S->runs == (ran ? 1 : 0), "the function ran %d times", S->runs); MC_CHECK(!ran || (S->pid != 0 && S->pid != main_pid), "the function ran in the caller's process"); MC_CHECK(S->dtors == 0, "%d of the caller's objects were destroyed in the sandboxed process", S->dtors); MC_CHECK(S->atexits == 0, "exit handlers ran in the sandboxed process");
	MC_CHECK(children() == 0, "a child process is left behind"); MC_CHECK(open_fds() == fds, "%d descriptors are open, %d before", open_fds(), fds); MC_CHECK(sig.same(), "the caller's signal handling changed"); MC_CHECK(pad_global == 5, "a change in the sandbox is visible to the caller");
}
#define ENTER() (++S->runs, S->pid = getpid(), pad_global = 77)

// ---- endings: exit statuses ----
static void statuses() { int v = choose(257) - 1, how = choose(3); op("status %d, %s", v, how == 0 ? "returned" : how == 1 ? "_exit" : "returned through a nested call"); state((u64) ((v + 1) * 3 + how)); begin(); int fds = open_fds(); sigstate sig;
	{ guard g; ending e = box([&] { if (how == 0) return DICE_SANDBOX { ENTER(); return v; }; if (how == 1) return DICE_SANDBOX { ENTER(); _exit(v); }; return DICE_SANDBOX { ENTER(); auto f = [&](int x) { std::unique_ptr<int> p(new int(x)); return *p; }; return f(v); }; }); int at = S->dtors; finish(e, {ending::result, v == 0 ? OK : FAIL}, fds, sig); (void) at; } MC_CHECK(S->dtors == 1, "the caller's object"); }
// ---- endings: signals, against the caller's handling of that signal ----
static int const sigs[] = {SIGHUP, SIGINT, SIGQUIT, SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGKILL, SIGUSR1, SIGSEGV, SIGUSR2, SIGPIPE, SIGALRM, SIGTERM, SIGSTKFLT, SIGXCPU, SIGXFSZ, SIGVTALRM, SIGPROF, SIGIO, SIGPWR, SIGSYS, 34, 35, 50, 63, 64, SIGCHLD, SIGCONT, SIGURG, SIGWINCH};
static bool is_ignored_by_default(int s) { return s == SIGCHLD || s == SIGCONT || s == SIGURG || s == SIGWINCH; }
static void signals() {
	int k = choose((int) (sizeof sigs / sizeof *sigs)), disp = choose(5), how = choose(2); int s = sigs[k]; op("signal %d, caller %s, sent by %s", s, disp == 0 ? "default" : disp == 1 ? "has a handler" : disp == 2 ? "ignores it" : disp == 3 ? "blocks it" : "handles it while blocking all", how ? "kill" : "raise"); state((u64) (k * 10 + disp * 2 + how)); if (s == SIGKILL && disp) return; if (s == SIGCHLD && disp == 2) return; // the caller's ignoring SIGCHLD makes waiting impossible, see errors()
	begin(); struct sigaction sa{}, old{}; sigset_t m, om; sigemptyset(&m); if (disp == 1 || disp == 4) sa.sa_handler = count_signal; else if (disp == 2) sa.sa_handler = SIG_IGN; if (disp == 1) sigaddset(&sa.sa_mask, s); if (disp && disp != 3) sigaction(s, &sa, &old); if (disp == 3) sigaddset(&m, s); if (disp == 4) sigfillset(&m); sigprocmask(SIG_BLOCK, &m, &om); int fds = open_fds(); sigstate sig; ending e;
	{ guard g; e = box([&] { return DICE_SANDBOX { ENTER(); if (how) kill(getpid(), s); else raise(s); S->after++; return 3; }; }); bool ign = is_ignored_by_default(s); MC_CHECK(S->handled == 0, "the caller's signal handler ran in the sandboxed process"); finish(e, {ending::result, ign ? FAIL : s}, fds, sig); MC_CHECK(S->after == (ign ? 1 : 0), "execution continued after the signal"); S->dtors = 0; }
	if (disp && disp != 3) sigaction(s, &old, nullptr); sigset_t p; sigpending(&p); MC_CHECK(s == SIGCHLD || !sigismember(&p, s), "the signal reached the caller"); if (sigismember(&p, SIGCHLD)) { int x; sigset_t c; sigemptyset(&c); sigaddset(&c, SIGCHLD); sigwait(&c, &x); } sigprocmask(SIG_SETMASK, &om, nullptr);
}
// ---- endings: other ways to end ----
struct custom { int x; };
[[gnu::noinline]] static int crash_now(int how, volatile int *zero) { switch (how) { case 0: std::abort(); case 1: std::terminate(); case 2: { int volatile *volatile p = nullptr; *p = 1; return 1; } case 3: return 10 / *zero; case 4: __builtin_trap(); case 5: throw std::runtime_error{"x"}; case 6: throw 42; case 7: throw custom{1}; case 8: throw "text"; case 9: { struct d { ~d() noexcept(false) { throw 1; } }; d q; } return 0; case 10: { auto f = [](auto &self, int n) -> int { volatile char big[4096]; big[0] = (char) n; return n == 0 ? 0 : self(self, n - 1) + big[0]; }; struct rlimit r{65536, 65536}; setrlimit(RLIMIT_STACK, &r); return f(f, 1 << 24); } case 11: throw std::system_error{7, std::system_category(), "from the function"}; case 12: std::set_terminate([] { std::abort(); }); throw 3; case 13: try { throw 1; } catch (int) { std::rethrow_exception(std::current_exception()); } } return 0; }
static void crashes() { int how = choose(14), nest = choose(2); op("ending %d%s", how, nest ? ", nested" : ""); state((u64) (how * 2 + nest)); begin(); int fds = open_fds(); sigstate sig; volatile int zero = 0; int want = how == 2 || how == 10 ? SIGSEGV : how == 3 ? SIGFPE : how == 4 ? SIGILL : SIGABRT; ending e; struct rlimit nc{0, 0}; setrlimit(RLIMIT_CORE, &nc);
	{ guard g; int devnull = open("/dev/null", O_WRONLY), keep = dup(2); dup2(devnull, 2); e = box([&] { if (!nest) return DICE_SANDBOX { ENTER(); return crash_now(how, &zero); }; return DICE_SANDBOX { ENTER(); auto in = DICE_SANDBOX { S->seen[0]++; return crash_now(how, &zero); }; S->seen[1] = (int) in; S->seen[2] = 1; return (int) in == want ? 0 : 5; }; }); dup2(keep, 2); close(keep); close(devnull);
		finish(e, {ending::result, nest ? OK : want}, fds, sig); MC_CHECK(!nest || (S->seen[0] == 1 && S->seen[1] == want && S->seen[2] == 1), "a nested sandbox reports %d instead of %d", S->seen[1], want); S->dtors = 0; } }
static_assert((int) SubProcessResult::ExitSuccess == OK && (int) SubProcessResult::ExitFailure == FAIL && (int) SubProcessResult::Aborted == SIGABRT && (int) SubProcessResult::SegmentationFault == SIGSEGV && (int) SubProcessResult::Interrupted == SIGINT && (int) SubProcessResult::IllegalInstruction == SIGILL && (int) SubProcessResult::FloatingPointException == SIGFPE && (int) SubProcessResult::Terminated == SIGTERM);
// ---- failures of the environment: every failing fork, every pattern of interrupted and failing waits, for every kind of ending ----
static void errors() {
	int end = choose(4), f = choose(4), ei = choose(4), we = choose(4); static int const ferr[] = {0, EAGAIN, ENOMEM, ENOSYS}, werr[] = {0, ECHILD, EINVAL, EFAULT}; op("ending %d, fork errno %d, %d interrupted waits, then errno %d", end, ferr[f], ei, werr[we]); state((u64) (end * 64 + f * 16 + ei * 4 + we)); begin(); int fds = open_fds(); sigstate sig; fork_errno = ferr[f]; wait_eintr = ei; wait_errno = werr[we];
	ending e; { guard g; e = box([&] { return DICE_SANDBOX { ENTER(); if (end == 1) return 9; if (end == 2) raise(SIGTERM); if (end == 3) throw 1; return 0; }; }); MC_CHECK(S->dtors == 0, "%d of the caller's objects were destroyed in the sandboxed process", S->dtors); }
	S->dtors = 0;	int fo = forks, wa = waits; fork_errno = 0; wait_errno = wait_eintr = 0; ending want = f ? ending{ending::error, ferr[f]} : we ? ending{ending::error, werr[we]} : ending{ending::result, end == 0 ? OK : end == 1 ? FAIL : end == 2 ? SIGTERM : SIGABRT};
	if (!f && we) { int st; waitpid(last_child, &st, 0); } finish(e, want, fds, sig, !f); MC_CHECK(fo == 1 && wa == (f ? 0 : ei + 1), "%d forks and %d waits", fo, wa);
}
// really interrupted waits, other children of the caller, ignored SIGCHLD
static void environment() {
	int k = choose(5), end = choose(3); op("case %d, ending %d", k, end); state((u64) (k * 3 + end)); begin(); int want = end == 0 ? OK : end == 1 ? FAIL : SIGUSR1; auto body = [&] { return DICE_SANDBOX { ENTER(); if (k == 0) usleep(30000); if (end == 2) raise(SIGUSR1); return end; }; };
	if (k == 0) { struct sigaction sa{}, old; sa.sa_handler = count_signal; sigaction(SIGUSR2, &sa, &old); pid_t me = getpid(); pid_t helper = fork(); if (helper == 0) { for (int i = 0; i < 5; ++i) { usleep(4000); kill(me, SIGUSR2); } _exit(0); } int fds = open_fds(); sigstate sig; ending e = box(body); int st; waitpid(helper, &st, 0); MC_CHECK(handled_here >= 1, "harness: no signal arrived"); finish(e, {ending::result, want}, fds, sig); sigaction(SIGUSR2, &old, nullptr); }
	else if (k == 1 || k == 2) { pid_t other = fork(); if (other == 0) { if (k == 2) usleep(40000); _exit(7); } if (k == 1) { siginfo_t si; waitid(P_PID, (id_t) other, &si, WEXITED | WNOWAIT); } int fds = open_fds(); sigstate sig; ending e = box(body); int st = 0; pid_t r = waitpid(other, &st, 0); MC_CHECK(r == other && WIFEXITED(st) && WEXITSTATUS(st) == 7, "the sandbox collected another child of the caller"); finish(e, {ending::result, want}, fds, sig); }
	else if (k == 3) { struct sigaction sa{}, old; sa.sa_handler = SIG_IGN; sigaction(SIGCHLD, &sa, &old); int fds = open_fds(); sigstate sig; ending e = box(body); finish(e, {ending::error, ECHILD}, fds, sig); sigaction(SIGCHLD, &old, nullptr); }
	else { for (int i = 0; i < 5; ++i) { int fds = open_fds(); sigstate sig; begin(); ending e = box(body); finish(e, {ending::result, want}, fds, sig); } }
}
// ---- isolation: nothing the function changes is visible to the caller ----
static int stat_int = 1; static thread_local int tls_int = 2;
static void isolation() {
	int what = choose(8), end = choose(4); op("change %d, ending %d", what, end); state((u64) (what * 4 + end)); begin(); int local = 3; std::unique_ptr<int> heap(new int(4)); std::vector<int> v{1, 2, 3}; std::map<int, int> m{{1, 1}}; char cwd[512], cwd2[512]; (void) !getcwd(cwd, sizeof cwd); setenv("MC_SANDBOX", "a", 1); int probe = open("/dev/null", O_RDONLY); mode_t um = umask(022); umask(um); int fds = open_fds(); sigstate sig; ending e;
	e = box([&] { return DICE_SANDBOX { ENTER(); switch (what) { case 0: local = 100; v.push_back(4); m.clear(); break; case 1: *heap = 100; heap.reset(); break; case 2: stat_int = 100; tls_int = 100; break; case 3: (void) !chdir("/"); setenv("MC_SANDBOX", "b", 1); break; case 4: close(probe); (void) !open("/dev/null", O_RDONLY); (void) !open("/dev/null", O_RDONLY); break; case 5: signal(SIGUSR1, SIG_IGN); { sigset_t s; sigfillset(&s); sigprocmask(SIG_SETMASK, &s, nullptr); } break; case 6: umask(0); errno = 77; break; case 7: for (int i = 0; i < 1000; ++i) v.push_back(i); new int[1000]; break; } if (end == 1) return 4; if (end == 2) abort(); if (end == 3) _exit(0); return 0; }; });
	(void) !getcwd(cwd2, sizeof cwd2); mode_t um2 = umask(um); MC_CHECK(local == 3 && *heap == 4 && v == (std::vector<int>{1, 2, 3}) && m.size() == 1 && stat_int == 1 && tls_int == 2, "a change of memory is visible to the caller"); MC_CHECK(!strcmp(cwd, cwd2) && !strcmp(getenv("MC_SANDBOX"), "a") && um == um2 && fcntl(probe, F_GETFD) >= 0, "a change of the process state is visible to the caller");
	finish(e, {ending::result, end == 0 || end == 3 ? OK : end == 1 ? FAIL : SIGABRT}, fds, sig); close(probe);
}
#ifdef NOSYNC
static constexpr int VIA = 5; // wide streams have buffers of their own
#else
static constexpr int VIA = 4;
#endif
// ---- output: what caller and function print arrives once and in order ----
static std::string slurp(int fd) { std::string r; char b[65536]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, (size_t) n); return r; }
static void output() {
	static size_t const sizes[] = {0, 1, 100, 4095, 4096, 4097, 65535, 65536, 65537, 300000}; int sz = choose(10), via = choose(VIA), end = choose(4), before = choose(3); op("%zu bytes through %d, ending %d, %d pending in the caller", sizes[sz], via, end, before); state((u64) (sz * 80 + via * 16 + end * 4 + before)); begin();
	fflush(nullptr); std::cout.flush(); std::wcout.flush(); int fd = memfd_create("out", 0); int target = via == 2 ? 2 : 1; int keep = dup(target); dup2(fd, target); FILE *own = via == 3 ? fdopen(dup(fd), "w") : nullptr; int fds = open_fds(); sigstate sig;
	auto put = [&](std::string const &s) { if (via == 0) fwrite(s.data(), 1, s.size(), stdout); else if (via == 1) std::cout << s; else if (via == 2) std::cerr << s; else if (via == 4) std::wcout << std::wstring(s.begin(), s.end()); else fwrite(s.data(), 1, s.size(), own); };
	std::string pre(before == 0 ? 0 : before == 1 ? 3 : 5000, 'p'), in(sizes[sz], 'i'), post = "end"; put(pre);
	ending e = box([&] { return DICE_SANDBOX { ENTER(); put(in); if (end >= 2) { std::cout.flush(); std::wcout.flush(); fflush(nullptr); } if (end == 1) return 6; if (end == 2) abort(); if (end == 3) _exit(0); return 0; }; }); put(post); std::cout.flush(); std::cerr.flush(); std::wcout.flush(); fflush(nullptr);
	std::string got = slurp(fd); dup2(keep, target); close(keep); int fds2 = open_fds() + 1; if (own) { fclose(own); } close(fd);
	MC_CHECK(got == pre + in + post, "%zu bytes arrive instead of %zu (or in another order)", got.size(), pre.size() + in.size() + post.size()); (void) fds2; S->dtors = 0; MC_CHECK(S->runs == 1, "the function ran %d times", S->runs); MC_CHECK((e == ending{ending::result, end == 0 || end == 3 ? OK : end == 1 ? FAIL : SIGABRT}), "ending %d", e.v); MC_CHECK(children() == 0, "a child process is left behind"); (void) fds;
}
// function kinds
static void kinds() { int k = choose(5); op("kind %d", k); state((u64) k); begin(); int fds = open_fds(); sigstate sig; ending e; int want = OK; using dice::template_library::detail_sandbox::SandBox;
	if (k == 0) e = box([&] { return DICE_SANDBOX { ENTER(); }; }); if (k == 1) e = box([&] { return DICE_SANDBOX { ENTER(); return; }; }); if (k == 2) { want = FAIL; int a = 2, b = 3; e = box([&] { return DICE_SANDBOX { ENTER(); return a * b; }; }); } if (k == 3) { struct f { int calls = 0; int operator()() { ENTER(); return ++calls == 1 ? 0 : 1; } } g; e = box([&] { return SandBox{} + g; }); MC_CHECK(g.calls == 0, "the caller's function object changed"); } if (k == 4) { struct once { std::unique_ptr<int> p; void operator()() && { ENTER(); if (*p != 5) abort(); } }; e = box([&] { return SandBox{} + once{std::make_unique<int>(5)}; }); }
	finish(e, {ending::result, want}, fds, sig); }
// ---- histories: all sequences of sandboxes (and failing forks), nested to every depth <= 2; every one reports its own ending ----
static ending one(int k, int inner) { fork_errno = k == 7 ? EAGAIN : 0; ending e = box([&] { return DICE_SANDBOX { ENTER(); int r = 0; if (inner >= 0) { auto x = DICE_SANDBOX { S->seen[0]++; switch (inner) { case 1: return 1; case 2: return 255; case 3: raise(SIGTERM); return 0; case 4: abort(); case 5: throw 1; case 6: _exit(4); } return 0; }; S->seen[1] = (int) x; if (getpid() != S->pid) S->escaped = getpid(); }
	switch (k) { case 1: r = 1; break; case 2: r = 255; break; case 3: raise(SIGTERM); break; case 4: abort(); case 5: throw 1; case 6: _exit(4); } return r; }; }); fork_errno = 0; return e; }
static int of(int k) { return k == 0 ? OK : k == 3 ? SIGTERM : k == 4 || k == 5 ? SIGABRT : FAIL; }
static void histories() { std::string h; begin(); int devnull = open("/dev/null", O_WRONLY), keep = dup(2); dup2(devnull, 2); close(devnull); int fds = open_fds(); sigstate sig;
	struct back { int fd; ~back() { dup2(fd, 2); close(fd); } } b{keep};
	for (int i = 0; i < (THOROUGH ? 3 : 2); ++i) { int k = choose(8), inner = (i == 2 ? 0 : choose(8)) - 1; h += std::to_string(k) + "/" + std::to_string(inner) + " "; op("%d, with %d inside", k, inner); u64 st = 0; for (char c : h) st = st * 131 + (u64) c; state(st); begin(); { guard g; ending e = one(k, inner); bool f = k == 7; MC_CHECK(f || inner < 0 || (S->seen[0] == 1 && S->seen[1] == of(inner)), "the nested sandbox reports %d instead of %d", S->seen[1], of(inner)); finish(e, f ? ending{ending::error, EAGAIN} : ending{ending::result, of(k)}, fds, sig, !f); } } }
int main(int argc, char **argv) {
	main_pid = getpid(); S = (shared *) mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); struct rlimit nc{0, 0}; setrlimit(RLIMIT_CORE, &nc); atexit([] { if (getpid() != main_pid) ++S->atexits; });
#ifdef NOSYNC
	std::ios_base::sync_with_stdio(false);
#endif
	std::vector<scenario> s;
#if PART == 0
	s.push_back({"statuses", statuses}); s.push_back({"function kinds", kinds}); s.push_back({"crashes", crashes});
#elif PART == 1
	s.push_back({"signals", signals});
#elif PART == 2
	s.push_back({"errors", errors}); s.push_back({"environment", environment}); s.push_back({"isolation", isolation});
#else
	s.push_back({"output", output});
#endif
#if PART == 0
	s.push_back({"histories", histories});
#endif
	return run(argc, argv, s);
}
