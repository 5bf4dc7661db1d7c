// Stateless model checker for real C++ code that uses std::thread / std::mutex / std::condition_variable / std::atomic.
//
// The code under test (muu's own sources plus the harness body) is compiled with gcc's -fsanitize=thread
// instrumentation but linked against THIS runtime instead of libtsan: every plain access, atomic, pthread call, clock
// and sleep lands here. Threads are fibers under one deterministic scheduler; every schedule within the deviation
// bound is enumerated, and a vector-clock happens-before race detector that is independent of the cooperative
// hand-offs (it only knows the program's own synchronisation) judges every plain access.
#pragma once
#include <cstdint>
#include <string>
#include <functional>

namespace mc
{
	struct options
	{
		int bound			= 2;	 // deviations (preemptions, early timeouts, spurious wakeups) per execution
		bool spurious		= true;	 // enumerate spurious condition-variable wakeups (each costs one deviation)
		bool early_timeouts = true;	 // enumerate timed waits expiring while others could run (cost one deviation)
		bool leak_check		= true;	 // heap blocks allocated by an execution must be freed by its end
		uint64_t max_steps	= 60000; // per execution; more is reported as livelock
		int64_t max_virtual_s = 120; // virtual time horizon; beyond it is reported as lack of progress
		uint64_t max_execs	= 0;	 // 0: no cap
		double max_seconds	= 0;	 // 0: no cap
		bool single			  = false; // only the default schedule (the enumeration is over inputs, inside the body)
		int fail_thread_create_at = -1; // nth pthread_create of an execution fails with EAGAIN
		int fail_alloc_at		  = -1; // nth heap allocation of an execution fails
	};

	// explores all executions of `body` (run on the first fiber); failures go to vf::fail with the schedule as key.
	// returns false if a violation was found.
	bool explore(const char* name, const options& opt, const std::function<void()>& body);

	// --- usable inside a body ---
	[[noreturn]] void fail(const char* fmt, ...);
#define MC_REQ(cond)                                                                                                   \
	do                                                                                                                 \
	{                                                                                                                  \
		if (!(cond))                                                                                                   \
			mc::fail("expected: %s (line %d)", #cond, __LINE__);                                                       \
	}                                                                                                                  \
	while (0)
	void outcome(int v);	   // appended to this execution's observed outcome
	int64_t virtual_ns();	   // virtual time since the start of the execution
	bool deviated_time();	   // some timed wait expired as a deviation in this execution
	int self();				   // id of the running thread
	int live_threads();		   // threads created and not yet finished (without the main one)
	int created_threads();	   // threads created so far in this execution
	int unjoined_threads();	   // threads created, and neither joined nor detached
	void expect_leak(void* p); // not counted by the leak check
	uint64_t allocs_so_far();
	void point(); // an extra scheduling point (used by harness code that spins)
	void yield_point();

	// harness-side bookkeeping: NOT a scheduling point and no happens-before edge for the race detector, but part of the
	// state identity used for merging
	struct quiet_counter
	{
		int v = 0;
		int add(int d);
		int get() const;
	};
}

extern "C" void mc_pause();
