// thread_pool under the model checker: every schedule within the deviation bound of small closed programs.
#include <muu/thread_pool.h>
#include "mc.h"
#include "vf.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <vector>
#include <array>
#include <memory>
#include <list>
#include <new>
#include <system_error>

using muu::thread_pool;
using std::size_t;

namespace
{
	constexpr int MAXN = 8;

	struct world
	{
		mc::quiet_counter runs[MAXN];	  // times task i was invoked
		mc::quiet_counter finished[MAXN]; // times task i returned
		mc::quiet_counter live[MAXN];	  // live callable instances of task i
		mc::quiet_counter made[MAXN];	  // instances ever made
		mc::quiet_counter inflight[16];	  // tasks running per worker index
		mc::quiet_counter pool_dead;	  // set once the pool's destructor has returned
		int data[MAXN]{};				  // plain memory written by tasks (judged by the race detector)
	};

	// a task with a non-trivial lifetime
	struct task
	{
		world* w;
		int i;
		size_t workers;
		int base   = 0; // where this pool's workers start in world::inflight
		bool valid = true;

		task(world* w_, int i_, size_t n, int b = 0) noexcept : w{ w_ }, i{ i_ }, workers{ n }, base{ b }
		{
			w->live[i].add(1);
			w->made[i].add(1);
		}
		task(task&& o) noexcept : w{ o.w }, i{ o.i }, workers{ o.workers }, base{ o.base }, valid{ o.valid }
		{
			o.valid = false;
			w->live[i].add(1);
			w->made[i].add(1);
		}
		task(const task& o) noexcept : w{ o.w }, i{ o.i }, workers{ o.workers }, base{ o.base }, valid{ o.valid }
		{
			w->live[i].add(1);
			w->made[i].add(1);
		}
		~task() noexcept
		{
			w->live[i].add(-1);
			MC_REQ(w->live[i].get() >= 0);
		}
		void operator()(size_t worker) noexcept
		{
			MC_REQ(valid);
			MC_REQ(worker < workers);
			MC_REQ(w->pool_dead.get() == 0);
			MC_REQ(w->inflight[base + worker].add(1) == 1); // one task at a time per worker index
			MC_REQ(w->runs[i].add(1) == 1);
			mc::point();
			w->data[i] += 100 + i;
			w->inflight[base + worker].add(-1);
			w->finished[i].add(1);
		}
	};

	void all_ran(world& w, int n, bool callables_gone = true)
	{
		for (int i = 0; i < n; i++)
		{
			MC_REQ(w.runs[i].get() == 1);
			MC_REQ(w.finished[i].get() == 1);
			MC_REQ(w.data[i] == 100 + i);
			if (callables_gone)
				MC_REQ(w.live[i].get() == 0);
		}
	}
	void no_threads()
	{
		MC_REQ(mc::live_threads() == 0);
		MC_REQ(mc::unjoined_threads() == 0);
	}

	mc::options opts(int quick_bound, int thorough_bound)
	{
		mc::options o;
		o.bound		  = vf::thorough ? thorough_bound : quick_bound;
		o.max_seconds = vf::thorough ? 1500 : 60;
		return o;
	}

	//------------------------------------------------------------------------------------------ C01 exactly once
	void exactly_once(size_t W, size_t Q, int N, int producers, int rounds)
	{
		world w;
		{
			thread_pool p{ W, Q };
			int done = 0;
			for (int r = 0; r < rounds; r++)
			{
				int per = N / rounds;
				if (producers == 1)
					for (int i = 0; i < per; i++)
						p.enqueue(task{ &w, done + i, W });
				else
				{
					int split = per / 2;
					std::thread t{ [&] {
						for (int i = 0; i < split; i++)
							p.enqueue(task{ &w, done + i, W });
					} };
					for (int i = split; i < per; i++)
						p.enqueue(task{ &w, done + i, W });
					t.join();
				}
				done += per;
				p.wait();
				for (int i = 0; i < done; i++)
					MC_REQ(w.runs[i].get() == 1);
			}
			all_ran(w, done);
		}
		w.pool_dead.add(1);
		all_ran(w, N / rounds * rounds);
		no_threads();
		int first = -1;
		(void)first;
	}

	void prompt_start(size_t W)
	{
		// every worker idle: an enqueued task must be picked up without a polling timeout having to expire
		world w;
		{
			thread_pool p{ W, W * 2 };
			int64_t t0 = mc::virtual_ns();
			p.enqueue(task{ &w, 0, W });
			p.wait();
			if (!mc::deviated_time())
				MC_REQ(mc::virtual_ns() == t0);
			all_ran(w, 1);
		}
		no_threads();
	}

	void C01()
	{
		mc::explore("w1q1n2", opts(4, 5), [] { exactly_once(1, 1, 2, 1, 1); });
		mc::explore("w1q2n3r3", opts(3, 4), [] { exactly_once(1, 2, 3, 1, 3); });
		mc::explore("w2q2n2", opts(3, 4), [] { exactly_once(2, 2, 2, 1, 1); });
		mc::explore("w2q4n3", opts(3, 4), [] { exactly_once(2, 4, 3, 1, 1); });
		mc::explore("w2q2n4r2", opts(2, 3), [] { exactly_once(2, 2, 4, 1, 2); });
		mc::explore("w1q2n2_two_producers", opts(3, 4), [] { exactly_once(1, 2, 2, 2, 1); });
		mc::explore("w2q2n4_two_producers", opts(2, 3), [] { exactly_once(2, 2, 4, 2, 1); });
		mc::explore("w1q1n5r5_wraparound", opts(2, 3), [] { exactly_once(1, 1, 5, 1, 5); });
		mc::explore("w3q3n3", opts(2, 3), [] { exactly_once(3, 3, 3, 1, 1); });
		mc::explore("prompt_w1", opts(3, 4), [] { prompt_start(1); });
		mc::explore("prompt_w2", opts(3, 4), [] { prompt_start(2); });
	}

	//------------------------------------------------------------------------------------------ C02 wait()
	void wait_concurrent(size_t W, int N)
	{
		world w;
		{
			thread_pool p{ W, 4 };
			for (int i = 0; i < N; i++)
				p.enqueue(task{ &w, i, W });
			std::thread t{ [&] {
				p.wait();
				all_ran(w, N);
			} };
			p.wait();
			all_ran(w, N);
			t.join();
		}
		no_threads();
	}
	void wait_vs_producer(size_t W)
	{
		// tasks enqueued by this thread before wait() are complete when it returns, whatever another producer does
		world w;
		{
			thread_pool p{ W, 4 };
			std::thread t{ [&] {
				p.enqueue(task{ &w, 0, W });
				p.wait();
				all_ran(w, 1);
			} };
			p.enqueue(task{ &w, 1, W });
			p.wait();
			MC_REQ(w.finished[1].get() == 1);
			MC_REQ(w.data[1] == 101);
			t.join();
			p.wait();
			all_ran(w, 2);
		}
		no_threads();
	}
	void wait_idle(size_t W)
	{
		world w;
		{
			thread_pool p{ W, 2 };
			int64_t t0 = mc::virtual_ns();
			p.wait();
			p.wait();
			if (!mc::deviated_time())
				MC_REQ(mc::virtual_ns() == t0);
			p.enqueue(task{ &w, 0, W });
			p.wait();
			p.wait();
			all_ran(w, 1);
		}
		no_threads();
	}
	void wait_slow_task(size_t W)
	{
		// a task that sleeps longer than any polling interval
		int done = 0;
		{
			thread_pool p{ W, 2 };
			p.enqueue([&]() noexcept {
				std::this_thread::sleep_for(std::chrono::milliseconds{ 350 });
				done++;
			});
			p.wait();
			MC_REQ(done == 1);
		}
		no_threads();
	}
	void wait_for_each(size_t W, int n)
	{
		int hit[8]{};
		{
			thread_pool p{ W, W };
			p.for_each(0, n, [&](int i) noexcept { hit[i]++; });
			p.wait();
			for (int i = 0; i < n; i++)
				MC_REQ(hit[i] == 1);
			p.for_each(hit, [](int& i) noexcept { i += 5; });
			p.wait();
			for (int i = 0; i < 8; i++)
				MC_REQ(hit[i] == (i < n ? 6 : 5));
		}
		no_threads();
	}
	void C02()
	{
		mc::explore("w1n2_two_waiters", opts(3, 4), [] { wait_concurrent(1, 2); });
		mc::explore("w2n2_two_waiters", opts(2, 3), [] { wait_concurrent(2, 2); });
		mc::explore("w1_producer_and_waiter", opts(3, 4), [] { wait_vs_producer(1); });
		mc::explore("w2_producer_and_waiter", opts(2, 3), [] { wait_vs_producer(2); });
		mc::explore("w1_idle", opts(4, 5), [] { wait_idle(1); });
		mc::explore("w2_idle", opts(3, 4), [] { wait_idle(2); });
		mc::explore("w2n2", opts(3, 4), [] { exactly_once(2, 2, 2, 1, 1); });
		mc::explore("w1n2r2", opts(4, 4), [] { exactly_once(1, 2, 2, 1, 2); });
		mc::explore("w1_slow", opts(2, 3), [] { wait_slow_task(1); });
		mc::explore("w2_slow", opts(2, 3), [] { wait_slow_task(2); });
		mc::explore("w2_for_each", opts(2, 3), [] { wait_for_each(2, 3); });
		mc::explore("w1_for_each", opts(3, 3), [] { wait_for_each(1, 2); });
	}

	//------------------------------------------------------------------------------------------ C03 lifecycle
	void settled(world& w, int n)
	{
		for (int i = 0; i < n; i++)
		{
			MC_REQ(w.runs[i].get() <= 1);
			MC_REQ(w.finished[i].get() == w.runs[i].get());
			MC_REQ(w.live[i].get() == 0);
			MC_REQ(w.data[i] == (w.runs[i].get() ? 100 + i : 0));
		}
	}
	void destroy_unfinished(size_t W, int N)
	{
		world w;
		{
			thread_pool p{ W, (size_t)N };
			for (int i = 0; i < N; i++)
				p.enqueue(task{ &w, i, W });
		}
		w.pool_dead.add(1);
		no_threads();
		settled(w, N);
		int m = 0;
		for (int i = 0; i < N; i++)
			m += w.runs[i].get() << i;
		mc::outcome(m);
	}
	void destroy_idle(size_t W)
	{
		{
			thread_pool p{ W, 1 };
			MC_REQ(p.workers() == W);
		}
		no_threads();
		MC_REQ(mc::created_threads() == (int)W);
	}
	void move_ctor(size_t W, bool wait)
	{
		world w;
		{
			thread_pool a{ W, 4 };
			a.enqueue(task{ &w, 0, W });
			thread_pool b{ std::move(a) };
			MC_REQ(a.workers() == 0);
			MC_REQ(a.capacity() == 0);
			MC_REQ(b.workers() == W);
			b.enqueue(task{ &w, 1, W });
			if (wait)
			{
				b.wait();
				all_ran(w, 2);
			}
		}
		no_threads();
		settled(w, 2);
	}
	void move_assign(size_t W, bool wait, bool over_live)
	{
		world w;
		{
			thread_pool a{ W, 2 };
			a.enqueue(task{ &w, 0, W });
			if (over_live)
			{
				thread_pool b{ 1, 2 };
				b.enqueue(task{ &w, 1, 1, 4 });
				b = std::move(a);
				// b's former pool is gone: its threads are joined and its tasks disposed of
				MC_REQ(mc::unjoined_threads() == (int)W);
				MC_REQ(w.live[1].get() == 0);
				MC_REQ(w.runs[1].get() == w.finished[1].get());
				MC_REQ(b.workers() == W);
				MC_REQ(a.workers() == 0);
				b.enqueue(task{ &w, 2, W });
				if (wait)
				{
					b.wait();
					MC_REQ(w.finished[0].get() == 1);
					MC_REQ(w.finished[2].get() == 1);
				}
			}
			else
			{
				thread_pool c{ std::move(a) };
				a = std::move(c);
				MC_REQ(a.workers() == W);
				MC_REQ(c.workers() == 0);
				a.enqueue(task{ &w, 2, W });
				if (wait)
					a.wait();
			}
		}
		no_threads();
		settled(w, 3);
	}
	void self_move_and_swap()
	{
		world w;
		{
			thread_pool a{ 1, 2 }, b{ 2, 2 };
			a.enqueue(task{ &w, 0, 1 });
			auto* pa = &a;
			a		 = std::move(*pa);
			MC_REQ(a.workers() == 1);
			std::swap(a, b);
			MC_REQ(a.workers() == 2);
			MC_REQ(b.workers() == 1);
			a.enqueue(task{ &w, 1, 2, 4 });
			a.wait();
			b.wait();
			all_ran(w, 2);
		}
		no_threads();
	}
	void destroy_slow(size_t W)
	{
		// a task being executed when the destructor runs is allowed to finish; nothing runs afterwards
		world w;
		std::unique_ptr<int> data{ new int{ 0 } };
		{
			thread_pool p{ W, 4 };
			for (int i = 0; i < 2; i++)
				p.enqueue([&w, d = data.get(), i]() noexcept {
					w.runs[i].add(1);
					std::this_thread::sleep_for(std::chrono::milliseconds{ 5 });
					MC_REQ(w.pool_dead.get() == 0);
					w.finished[i].add(1);
					(void)d;
				});
		}
		w.pool_dead.add(1);
		*data = 1;
		for (int i = 0; i < 2; i++)
			MC_REQ(w.runs[i].get() == w.finished[i].get());
		no_threads();
	}
	void C03()
	{
		mc::explore("destroy_idle_w1", opts(4, 5), [] { destroy_idle(1); });
		mc::explore("destroy_idle_w2", opts(3, 4), [] { destroy_idle(2); });
		mc::explore("destroy_w1n1", opts(4, 5), [] { destroy_unfinished(1, 1); });
		mc::explore("destroy_w1n2", opts(4, 4), [] { destroy_unfinished(1, 2); });
		mc::explore("destroy_w2n2", opts(3, 4), [] { destroy_unfinished(2, 2); });
		mc::explore("destroy_w2n4", opts(2, 3), [] { destroy_unfinished(2, 4); });
		mc::explore("destroy_w1_slow", opts(3, 4), [] { destroy_slow(1); });
		mc::explore("destroy_w2_slow", opts(2, 3), [] { destroy_slow(2); });
		mc::explore("move_ctor", opts(3, 4), [] { move_ctor(1, true); });
		mc::explore("move_ctor_w2_destroy", opts(2, 3), [] { move_ctor(2, false); });
		mc::explore("move_assign_over_live", opts(3, 3), [] { move_assign(1, true, true); });
		mc::explore("move_assign_over_live_destroy", opts(2, 3), [] { move_assign(1, false, true); });
		mc::explore("move_assign_back", opts(3, 3), [] { move_assign(1, true, false); });
		mc::explore("self_move_swap", opts(2, 3), [] { self_move_and_swap(); });
	}

	//------------------------------------------------------------------------------------------ C04 bounded queue
	struct gate
	{
		std::mutex m;
		std::condition_variable cv;
		bool open = false;
		int inside = 0;
		void pass() noexcept
		{
			std::unique_lock l{ m };
			inside++;
			cv.notify_all();
			while (!open)
				cv.wait(l);
		}
		void release()
		{
			{
				std::lock_guard l{ m };
				open = true;
			}
			cv.notify_all();
		}
		void wait_inside(int n)
		{
			std::unique_lock l{ m };
			while (inside < n)
				cv.wait(l);
		}
	};
	void backpressure(size_t W, size_t Q)
	{
		gate g;
		mc::quiet_counter accepted, started, fin;
		int total;
		{
			thread_pool p{ W, Q };
			const int cap = (int)p.capacity();
			MC_REQ(cap >= (int)Q);
			// occupy every worker
			for (size_t i = 0; i < W; i++)
				p.enqueue([&]() noexcept { g.pass(); });
			g.wait_inside((int)W);
			// the queue is empty now: `cap` tasks go in without blocking (no virtual time passes)
			int64_t t0 = mc::virtual_ns();
			for (int i = 0; i < cap; i++)
			{
				p.enqueue([&]() noexcept {
					started.add(1);
					fin.add(1);
				});
				accepted.add(1);
			}
			if (!mc::deviated_time())
				MC_REQ(mc::virtual_ns() == t0);
			MC_REQ(started.get() == 0);
			// one more has to wait for room, i.e. until the gate opens
			mc::quiet_counter opened;
			std::thread opener{ [&] {
				std::this_thread::sleep_for(std::chrono::milliseconds{ 1 });
				opened.add(1);
				g.release();
			} };
			p.enqueue([&]() noexcept {
				started.add(1);
				fin.add(1);
			});
			MC_REQ(opened.get() == 1);
			MC_REQ(started.get() >= 1);
			opener.join();
			p.wait();
			total = cap + 1;
			MC_REQ(fin.get() == total);
			MC_REQ(started.get() == total);
		}
		no_threads();
	}
	void overfill(size_t W, size_t Q, int N)
	{
		// far more tasks than slots: nothing is lost, overwritten or run twice, and producers never have more than
		// capacity() + W tasks outstanding
		world w;
		mc::quiet_counter outstanding;
		int hits[MAXN]{};
		{
			thread_pool p{ W, Q };
			const int cap = (int)p.capacity();
			for (int i = 0; i < N; i++)
			{
				p.enqueue([&, i]() noexcept {
					hits[i]++;
					outstanding.add(-1);
				});
				MC_REQ(outstanding.add(1) <= cap + (int)W);
			}
			p.wait();
			MC_REQ(outstanding.get() == 0);
			for (int i = 0; i < N; i++)
				MC_REQ(hits[i] == 1);
		}
		no_threads();
	}
	// a for_each that arrives when its queues are partly full: every batch still has a slot of its own
	void prefilled(size_t W, size_t Q, int fill, int n, bool iterators)
	{
		gate g;
		mc::quiet_counter early;
		int queued[16]{}, hit[16]{};
		{
			thread_pool p{ W, Q };
			MC_REQ(fill <= (int)p.capacity());
			for (size_t i = 0; i < W; i++)
				p.enqueue([&]() noexcept { g.pass(); });
			g.wait_inside((int)W);
			for (int i = 0; i < fill; i++)
				p.enqueue([&queued, i]() noexcept { queued[i]++; });
			std::thread opener{ [&] {
				std::this_thread::sleep_for(std::chrono::milliseconds{ 1 });
				g.release();
			} };
			if (iterators)
				p.for_each(hit, hit + n, [](int& h) noexcept { h++; });
			else
				p.for_each(0, n, [&](int i) noexcept { hit[i]++; });
			opener.join();
			p.wait();
			for (int i = 0; i < 16; i++)
			{
				MC_REQ(queued[i] == (i < fill));
				MC_REQ(hit[i] == (i < n));
			}
		}
		no_threads();
	}
	void prefilled_all(int bound)
	{
		const size_t wmax = vf::thorough ? 3 : 2;
		for (size_t W = 1; W <= wmax; W++)
			for (size_t per = 1; per <= (W == 3 ? 1u : 2u); per++)
				for (int fill = 0; fill <= (int)(W * per); fill++)
					for (int n : { (int)W, (int)W + 1 })
						for (int it = 0; it < 2; it++)
						{
							static char nm[64];
							snprintf(nm, sizeof nm, "prefilled_w%zu_q%zu_f%d_n%d_%d", W, W * per, fill, n, it);
							mc::explore(nm, opts(W == 3 ? 0 : bound, W == 3 ? 0 : bound + 1), [=] { prefilled(W, W * per, fill, n, it); });
						}
	}
	void C04()
	{
		auto o	 = opts(1, 2);
		o.bound	 = 0;
		// many pools in one execution: the engine's thread table is per execution, so split
		for (size_t w = 1; w <= 3; w++)
			for (size_t q = 0; q <= 7; q++)
			{
				static char nm[32];
				snprintf(nm, sizeof nm, "params_w%zu_q%zu", w, q);
				mc::explore(nm, o, [=] {
					{
						thread_pool p{ w, q };
						MC_REQ(p.workers() == w);
						if (q)
						{
							MC_REQ(p.capacity() >= q);
							MC_REQ(p.capacity() < q + w);
						}
						else
							MC_REQ(p.capacity() >= w);
					}
					no_threads();
				});
			}
		mc::explore("full_w1q1", opts(2, 3), [] { backpressure(1, 1); });
		mc::explore("full_w1q2", opts(2, 2), [] { backpressure(1, 2); });
		mc::explore("full_w2q2", opts(1, 2), [] { backpressure(2, 2); });
		mc::explore("full_w2q3", opts(1, 1), [] { backpressure(2, 3); });
		mc::explore("overfill_w1q1", opts(3, 4), [] { overfill(1, 1, 4); });
		mc::explore("overfill_w2q2", opts(2, 3), [] { overfill(2, 2, 6); });
		mc::explore("overfill_w1q3", opts(2, 3), [] { overfill(1, 3, 8); });
		prefilled_all(0);
	}

	//------------------------------------------------------------------------------------------ C06 concurrent use
	void mixed(size_t W)
	{
		int hit[4]{};
		world w;
		{
			thread_pool p{ W, 2 };
			std::thread t{ [&] {
				p.enqueue(task{ &w, 0, W });
				MC_REQ(p.workers() == W);
				p.wait();
				MC_REQ(w.finished[0].get() == 1);
			} };
			p.for_each(0, 2, [&](int i) noexcept { hit[i]++; });
			MC_REQ(p.capacity() >= 2);
			p.wait();
			MC_REQ(hit[0] == 1 && hit[1] == 1);
			t.join();
		}
		no_threads();
		all_ran(w, 1);
	}
	void three_threads()
	{
		world w;
		{
			thread_pool p{ 1, 1 };
			std::thread a{ [&] { p.enqueue(task{ &w, 0, 1 }); } };
			std::thread b{ [&] { p.enqueue(task{ &w, 1, 1 }); } };
			p.enqueue(task{ &w, 2, 1 });
			a.join();
			b.join();
			p.wait();
			all_ran(w, 3);
		}
		no_threads();
	}
	void two_for_each(size_t W)
	{
		int hit[6]{};
		{
			thread_pool p{ W, 2 };
			std::thread a{ [&] { p.for_each(0, 3, [&](int i) noexcept { hit[i]++; }); } };
			p.for_each(3, 6, [&](int i) noexcept { hit[i]++; });
			a.join();
			p.wait();
			for (int i : hit)
				MC_REQ(i == 1);
		}
		no_threads();
	}
	void two_pools()
	{
		world w;
		{
			thread_pool p{ 1, 1 }, q{ 1, 1 };
			p.enqueue(task{ &w, 0, 1 });
			q.enqueue(task{ &w, 1, 1, 4 });
			q.wait();
			MC_REQ(w.finished[1].get() == 1);
			p.wait();
			all_ran(w, 2);
		}
		no_threads();
	}
	void C06()
	{
		mc::explore("mixed_w1", opts(3, 4), [] { mixed(1); });
		mc::explore("mixed_w2", opts(2, 3), [] { mixed(2); });
		mc::explore("three_producers_w1q1", opts(2, 3), [] { three_threads(); });
		mc::explore("two_for_each_w1", opts(3, 3), [] { two_for_each(1); });
		mc::explore("two_for_each_w2", opts(2, 3), [] { two_for_each(2); });
		mc::explore("two_pools", opts(3, 3), [] { two_pools(); });
		mc::explore("w2n3_contended", opts(3, 4), [] { exactly_once(2, 2, 3, 1, 1); });
		mc::explore("destroy_w2n2", opts(3, 4), [] { destroy_unfinished(2, 2); });
		mc::explore("w1n2_two_waiters", opts(3, 4), [] { wait_concurrent(1, 2); });
	}

	//------------------------------------------------------------------------------------------ C07 construction faults
	void C07()
	{
		for (int W = 1; W <= 3; W++)
			for (int k = 0; k < W; k++)
			{
				static char nm[64];
				snprintf(nm, sizeof nm, "thread_create_fails_w%d_at%d", W, k);
				auto o					= opts(W == 3 ? 1 : 2, 2);
				o.fail_thread_create_at = k;
				mc::explore(nm, o, [=] {
					bool threw = false;
					try
					{
						thread_pool p{ (size_t)W, 4 };
					}
					catch (const std::system_error&)
					{
						threw = true;
					}
					if (mc::created_threads() == k) // the warm-up execution runs without the fault
						MC_REQ(threw);
					no_threads();
				});
			}
		for (int W = 1; W <= 2; W++)
			for (int k = 0; k < 12; k++)
			{
				static char nm[64];
				snprintf(nm, sizeof nm, "alloc_fails_w%d_at%d", W, k);
				auto o			= opts(1, 1);
				o.fail_alloc_at = k;
				o.leak_check	= true;
				mc::explore(nm, o, [=] {
					bool threw = false;
					uint64_t a0 = mc::allocs_so_far();
					try
					{
						thread_pool p{ (size_t)W, 4 };
					}
					catch (const std::bad_alloc&)
					{
						threw = true;
					}
					catch (const std::system_error&)
					{
						threw = true;
					}
					(void)a0;
					mc::outcome(threw);
					no_threads();
				});
			}
	}
}

int main(int c, char** v)
{
	vf::init(c, v);
	std::string which = vf::args.empty() ? "" : vf::args[0];
	if (which == "C01") { C01(); prefilled_all(0); }
	if (which == "C02") C02();
	if (which == "C03") C03();
	if (which == "C04") C04();
	if (which == "C05") prefilled_all(0);
	if (which == "C06") C06();
	if (which == "C07") C07();
	return vf::finish();
}
