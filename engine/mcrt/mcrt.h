// API of the controlled-scheduler model checker. Harnesses include this; libmcrt.so implements it.
#pragma once
#include <cstddef>
#include <cstdint>

namespace mcrt {
inline constexpr int MAXT = 6;      // main + up to 5 threads
inline constexpr int MAXH = 48;     // history entries per execution

struct event {                       // one call of the code under test
	int tid, op;
	long arg;
	long res, res2;
	int call_t, ret_t;               // positions in the real-time order; ret_t < 0: never returned
};

struct program {
	char const *name;
	int nthreads;
	void (*setup)();                 // single-threaded, before the threads start
	void (*thread)(int tid);         // body of thread tid (1..nthreads)
	void (*finish)();                // single-threaded, after all threads ended
	bool (*check)(event const *h, int n); // judges the complete history (may be null)
	char const *(*blocked)(event const *h, int n) = nullptr; // all threads asleep: null if every pending call may block, else why not
	int spurious = 0;                // budget of spurious condition-variable wakeups
	int faults = 0;                  // budget of injected faults (mcrt_fault)
	int weakfail = 0;                // budget of spurious weak-CAS failures
	int stale = 0;                   // budget of stale atomic loads
	int preemptions = -1;            // -1: unbounded
	bool unlock_point = true;        // schedule before unlocking, too
	void const *user = nullptr;      // for the harness
	long max_exec = 2000000000;
};
} // namespace mcrt

extern "C" {
int mcrt_main(int argc, char **argv, mcrt::program const *progs, int nprogs);
int mcrt_choose(int n, char const *what);            // environment nondeterminism, part of the explored space
int mcrt_fault(char const *what);                    // 1: inject the fault here (explored, bounded by program::faults)
[[noreturn]] void mcrt_fail(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
int mcrt_call(int op, long arg);                     // start of an operation of the code under test
void mcrt_ret(int id, long res, long res2);          // its end
void const *mcrt_user(void);                         // program::user of the running program
int mcrt_self(void);                                 // current thread id (0: main)
int mcrt_live(void);                                 // live heap blocks allocated inside the execution
void mcrt_observe(uint64_t v);                       // adds to the outcome signature
void mcrt_note(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
void mcrt_atomic_point(void *obj, char const *what); // scheduling point conflicting on obj (custom lock types)
}
