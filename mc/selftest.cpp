// Engine self-test: known-bad and known-good programs; run by setup_cmd.
#include "mc.h"
#include "vf.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <vector>
#include <chrono>
static int bad = 0;
template <class F>
static void expect(const char* n, bool should_hold, F f, mc::options o = {})
{
	bool ok = mc::explore(n, o, f);
	printf("%s: %s (expected %s)\n", n, ok ? "holds" : "violated", should_hold ? "holds" : "violated");
	if (ok != should_hold)
		bad++;
}
int main(int c, char** v)
{
	vf::init(c, v);
	expect("lost_update", false, [] {
		std::atomic<int> x{ 0 };
		auto f = [&] { int t = x.load(); x.store(t + 1); };
		std::thread a(f), b(f);
		a.join(); b.join();
		MC_REQ(x.load() == 2);
	});
	expect("fetch_add", true, [] {
		std::atomic<int> x{ 0 };
		auto f = [&] { x++; };
		std::thread a(f), b(f);
		a.join(); b.join();
		mc::outcome(x.load());
		MC_REQ(x.load() == 2);
	});
	expect("race", false, [] {
		int x = 0;
		auto f = [&] { x++; };
		std::thread a(f), b(f);
		a.join(); b.join();
	});
	expect("mutex", true, [] {
		int x = 0; std::mutex m;
		auto f = [&] { std::lock_guard l{ m }; x++; };
		std::thread a(f), b(f);
		a.join(); b.join();
		MC_REQ(x == 2);
	});
	expect("relaxed_publish", false, [] {
		int d = 0; std::atomic<bool> r{ false };
		std::thread a([&] { d = 1; r.store(true, std::memory_order_relaxed); });
		if (r.load(std::memory_order_acquire)) { volatile int q = d; (void)q; }
		a.join();
	});
	expect("release_publish", true, [] {
		int d = 0; std::atomic<bool> r{ false };
		std::thread a([&] { d = 1; r.store(true, std::memory_order_release); });
		if (r.load(std::memory_order_acquire)) MC_REQ(d == 1);
		a.join();
	});
	expect("deadlock", false, [] {
		std::mutex m, n;
		std::thread a([&] { std::lock_guard x{ m }; std::lock_guard y{ n }; });
		{ std::lock_guard x{ n }; std::lock_guard y{ m }; }
		a.join();
	});
	expect("lost_wakeup", false, [] {
		std::mutex m; std::condition_variable cv; std::atomic<bool> f{ false };
		std::thread a([&] { f = true; cv.notify_all(); });
		{ std::unique_lock l{ m }; while (!f) cv.wait(l); }
		a.join();
	});
	expect("cv_ok", true, [] {
		std::mutex m; std::condition_variable cv; bool f = false;
		std::thread a([&] { { std::lock_guard l{ m }; f = true; } cv.notify_all(); });
		{ std::unique_lock l{ m }; while (!f) cv.wait(l); }
		a.join();
	});
	expect("cv_if", false, [] {
		std::mutex m; std::condition_variable cv; bool f = false;
		std::thread a([&] { { std::lock_guard l{ m }; f = true; } cv.notify_all(); });
		{ std::unique_lock l{ m }; if (!f) cv.wait(l); MC_REQ(f); }
		a.join();
	});
	expect("uaf", false, [] {
		int* p = new int(3); std::mutex m;
		std::thread a([&] { std::lock_guard l{ m }; delete p; });
		{ std::lock_guard l{ m }; *p = 4; }
		a.join();
	});
	expect("leak", false, [] { static int* volatile p; p = new int(3); });
	expect("spin_ok", true, [] {
		std::atomic<bool> f{ false }; int d = 0;
		std::thread a([&] { d = 3; f = true; });
		while (!f) {}
		MC_REQ(d == 3);
		a.join();
	});
	expect("sleep", true, [] {
		int d = 0; std::mutex m;
		std::thread a([&] { std::this_thread::sleep_for(std::chrono::milliseconds(10)); std::lock_guard l{ m }; d++; });
		for (;;) { { std::lock_guard l{ m }; if (d) break; } std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
		a.join();
	});
	expect("atomic_wait", true, [] {
		std::atomic<int> f{ 0 };
		std::thread a([&] { f = 1; f.notify_all(); });
		f.wait(0);
		a.join();
	});
	expect("static_init", true, [] {
		auto g = [] { static std::vector<int> s{ 1, 2, 3 }; return s[1]; };
		std::thread a([&] { MC_REQ(g() == 2); });
		MC_REQ(g() == 2);
		a.join();
	});
	expect("exception", true, [] {
		std::mutex m; int x = 0;
		auto f = [&] { try { mc::point(); throw 3; } catch (int k) { mc::point(); std::lock_guard l{ m }; x += k; } };
		std::thread a(f);
		f();
		a.join();
		MC_REQ(x == 6);
	});
	printf("selftest %s\n", bad ? "FAILED" : "passed");
	fflush(stdout);
	_exit(bad ? 1 : 0);
}
