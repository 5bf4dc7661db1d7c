// C05 for_each coverage, C08 spin_mutex, C09 task storage: under the same model checker as pool.cpp.
#include <muu/thread_pool.h>
#include <muu/spin_mutex.h>
#include <muu/span.h>
#include "mc.h"
#include "vf.h"
#include <thread>
#include <mutex>
#include <vector>
#include <array>
#include <list>
#include <set>
#include <memory>
#include <limits>
#include <string>

using muu::thread_pool;
using std::size_t;

namespace
{
	mc::options opts(int quick_bound, int thorough_bound)
	{
		mc::options o;
		o.bound		  = vf::thorough ? thorough_bound : quick_bound;
		o.max_seconds = vf::thorough ? 1500 : 60;
		return o;
	}
	mc::options seq()
	{
		mc::options o;
		o.bound		= 0;
		o.single	= true;
		o.max_steps = 40'000'000;
		o.max_virtual_s = 100000;
		return o;
	}
	void no_threads()
	{
		MC_REQ(mc::live_threads() == 0);
		MC_REQ(mc::unjoined_threads() == 0);
	}
	const char* nm(const char* f, ...)
	{
		static char bufs[4][128];
		static int which;
		char* b = bufs[which++ % 4];
		va_list ap;
		va_start(ap, f);
		vsnprintf(b, 128, f, ap);
		return b;
	}

	//---------------------------------------------------------------------------------------------- C05 integer ranges
	enum class e8 : signed char {};
	enum class eu : unsigned {};
	enum plain_enum : int { pe_zero };

	template <typename T, bool = std::is_enum_v<T>>
	struct under
	{
		using type = T;
	};
	template <typename T>
	struct under<T, true>
	{
		using type = std::underlying_type_t<T>;
	};

	constexpr int RN = 24;
	struct rec
	{
		mc::quiet_counter hits[RN], stray, badbatch, batchcount[8];
		void clear()
		{
			for (auto& h : hits)
				h.v = 0;
			for (auto& h : batchcount)
				h.v = 0;
			stray.v = badbatch.v = 0;
		}
	};

	// values are base + offset for offsets lo..hi; every (start, end) pair in that window
	template <typename T>
	void ranges(thread_pool& p, size_t W, long long base, int lo, int hi, int arity)
	{
		using U = typename under<T>::type;
		rec r;
		for (int a = lo; a <= hi; a++)
			for (int b = lo; b <= hi; b++)
			{
				r.clear();
				const T start = static_cast<T>(static_cast<U>(base + a)), end = static_cast<T>(static_cast<U>(base + b));
				auto note = [&r, base, lo](T v) noexcept
				{
					long long off = (long long)((unsigned long long)static_cast<U>(v) - (unsigned long long)base) - lo;
					if (off < 0 || off >= RN)
						r.stray.add(1);
					else
						r.hits[off].add(1);
				};
				if (arity == 2)
					p.for_each(start,
							   end,
							   [&note, &r, W](T v, size_t batch) noexcept
							   {
								   if (batch >= W)
									   r.badbatch.add(1);
								   else
									   r.batchcount[batch].add(1);
								   note(v);
							   });
				else if (arity == 1)
					p.for_each(start, end, [&note](T v) noexcept { note(v); });
				else
					p.for_each(start, end, [&r]() noexcept { r.hits[0].add(1); });
				p.wait();
				int n = a < b ? b - a : a - b;
				if (arity == 0)
				{
					if (r.hits[0].get() != n)
						mc::fail("for_each(%lld, %lld) called a no-argument task %d times, expected %d", base + a,
								 base + b, r.hits[0].get(), n);
					continue;
				}
				for (int k = lo; k <= hi; k++)
				{
					bool in = a <= b ? (k >= a && k < b) : (k <= a && k > b);
					if (r.hits[k - lo].get() != (in ? 1 : 0))
						mc::fail("for_each(%lld, %lld) W=%zu ran value %lld %d times, expected %d", base + a, base + b,
								 W, base + k, r.hits[k - lo].get(), (int)in);
				}
				if (r.stray.get())
					mc::fail("for_each(%lld, %lld) W=%zu ran %d values far outside the range", base + a, base + b, W,
							 r.stray.get());
				if (r.badbatch.get())
					mc::fail("for_each(%lld, %lld) W=%zu passed a batch index >= workers()", base + a, base + b, W);
			}
	}
	template <typename T>
	void range_types(const char* name, int W, int Q, bool extremes)
	{
		using U			   = typename under<T>::type;
		constexpr auto max = (unsigned long long)std::numeric_limits<U>::max();
		constexpr auto min = (long long)std::numeric_limits<U>::min();
		constexpr bool sgn = std::is_signed_v<U>;
		mc::explore(nm("range_%s_w%d_q%d", name, W, Q),
					seq(),
					[=]
					{
						{
							thread_pool p{ (size_t)W, (size_t)Q };
							if (!extremes)
							{
								ranges<T>(p, W, 0, sgn ? -5 : 0, sgn ? 5 : 9, 2);
								ranges<T>(p, W, 0, sgn ? -5 : 0, sgn ? 5 : 9, 1);
								ranges<T>(p, W, 0, sgn ? -3 : 0, sgn ? 4 : 7, 0);
							}
							else
							{
								ranges<T>(p, W, (long long)max, -6, 0, 2);
								ranges<T>(p, W, min, 0, 6, 2);
								ranges<T>(p, W, (long long)max, -5, 0, 1);
								ranges<T>(p, W, min, 0, 5, 1);
							}
						}
						no_threads();
					});
	}
	void wide(int W)
	{
		// the whole domain of a 8-bit type, both directions
		mc::explore(nm("whole_int8_w%d", W),
					seq(),
					[=]
					{
						thread_pool p{ (size_t)W, 8 };
						static mc::quiet_counter hit[256];
						for (auto& h : hit)
							h.v = 0;
						p.for_each((int8_t)-128, (int8_t)127, [](int8_t v) noexcept { hit[v + 128].add(1); });
						p.wait();
						for (int i = 0; i < 256; i++)
							MC_REQ(hit[i].get() == (i < 255));
						p.for_each((int8_t)127, (int8_t)-128, [](int8_t v) noexcept { hit[v + 128].add(1); });
						p.wait();
						for (int i = 0; i < 256; i++)
							MC_REQ(hit[i].get() == (i < 255) + (i > 0));
						for (auto& h : hit)
							h.v = 0;
						p.for_each((uint8_t)255, [](uint8_t v) noexcept { hit[v].add(1); });
						p.wait();
						for (int i = 0; i < 256; i++)
							MC_REQ(hit[i].get() == (i < 255));
						p.for_each((uint8_t)255, (uint8_t)0, [](uint8_t v) noexcept { hit[v].add(1); });
						p.wait();
						for (int i = 0; i < 256; i++)
							MC_REQ(hit[i].get() == (i < 255) + (i > 0));
					});
	}
	void end_only(int W)
	{
		mc::explore(nm("end_only_w%d", W),
					seq(),
					[=]
					{
						thread_pool p{ (size_t)W, 8 };
						for (int n = -7; n <= 17; n++)
						{
							static mc::quiet_counter hit[40];
							for (auto& h : hit)
								h.v = 0;
							p.for_each(n, [](int v) noexcept { hit[v + 20].add(1); });
							p.wait();
							for (int v = -20; v < 20; v++)
							{
								bool in = n >= 0 ? v >= 0 && v < n : v <= 0 && v > n;
								MC_REQ(hit[v + 20].get() == (int)in);
							}
						}
					});
	}

	template <typename C, typename Get>
	void collection(thread_pool& p, size_t W, const char* name, C&& c, Get get, int n)
	{
		mc::quiet_counter hit[32], bad;
		auto chk = [&](const char* how)
		{
			for (int i = 0; i < 32; i++)
				if (hit[i].get() != (i < n ? 1 : 0))
					mc::fail("%s (%s) of %d elements with %zu workers: element %d visited %d times", name, how, n, W, i,
							 hit[i].get());
			for (auto& h : hit)
				h.v = 0;
			MC_REQ(bad.get() == 0);
		};
		p.for_each(c, [&](auto& e) noexcept { hit[get(e)].add(1); });
		p.wait();
		chk("collection");
		p.for_each(c,
				   [&](auto& e, size_t b) noexcept
				   {
					   hit[get(e)].add(1);
					   if (b >= W)
						   bad.add(1);
				   });
		p.wait();
		chk("collection,batch");
		int count = 0;
		p.for_each(c, [&]() noexcept { hit[31].add(1); });
		p.wait();
		MC_REQ(hit[31].get() == n);
		hit[31].v = 0;
		(void)count;
		p.for_each(std::begin(c), std::end(c), [&](auto& e) noexcept { hit[get(e)].add(1); });
		p.wait();
		chk("iterators");
		if (n)
		{ // reversed iterators are an empty range for random-access iterators
			if constexpr (std::is_pointer_v<std::decay_t<decltype(std::begin(c))>>)
			{
				p.for_each(std::end(c), std::begin(c), [&](auto&) noexcept { bad.add(1); });
				p.wait();
				MC_REQ(bad.get() == 0);
			}
		}
	}
	void collections(int W, int Q)
	{
		mc::explore(nm("collections_w%d_q%d", W, Q),
					seq(),
					[=]
					{
						thread_pool p{ (size_t)W, (size_t)Q };
						auto id = [](auto& e) { return (int)e; };
						for (int n = 0; n <= 11; n++)
						{
							std::vector<int> v;
							std::list<int> l;
							std::set<int> s;
							for (int i = 0; i < n; i++)
								v.push_back(i), l.push_back(i), s.insert(i);
							const auto& cv = v;
							collection(p, W, "vector", v, id, n);
							collection(p, W, "const vector", cv, id, n);
							collection(p, W, "list", l, id, n);
							collection(p, W, "set", s, id, n);
							muu::span<int> sp{ v.data(), v.size() };
							if (n)
								collection(p, W, "span", sp, id, n);
						}
						int arr[7];
						std::array<int, 9> sa;
						std::string str;
						for (int i = 0; i < 7; i++)
							arr[i] = i;
						for (int i = 0; i < 9; i++)
							sa[i] = i;
						for (int i = 0; i < 13; i++)
							str.push_back((char)i);
						collection(p, W, "array", arr, id, 7);
						collection(p, W, "std::array", sa, id, 9);
						collection(p, W, "string", str, id, 13);
						// elements are passed by reference
						std::vector<int> w(10, 3);
						p.for_each(w, [](int& x) noexcept { x *= 2; });
						p.wait();
						for (int x : w)
							MC_REQ(x == 6);
					});
	}
	void contended(int W, int Q, int n)
	{
		// while the queue is partly occupied and a second producer competes for it
		int hit[16]{};
		mc::quiet_counter other;
		{
			thread_pool p{ (size_t)W, (size_t)Q };
			std::thread t{ [&] {
				p.enqueue([&]() noexcept { other.add(1); });
				p.enqueue([&]() noexcept { other.add(1); });
			} };
			p.for_each(0, n, [&](int i, size_t b) noexcept {
				MC_REQ(b < (size_t)W);
				hit[i]++;
			});
			t.join();
			p.wait();
			MC_REQ(other.get() == 2);
			for (int i = 0; i < n; i++)
				MC_REQ(hit[i] == 1);
		}
		no_threads();
	}

	void C05()
	{
		for (int W = 1; W <= 4; W++)
			for (int Q : { 1, 4, 12 })
			{
				range_types<int>("int", W, Q, false);
				range_types<unsigned>("unsigned", W, Q, false);
				range_types<e8>("enum8", W, Q, false);
				range_types<int>("int_ext", W, Q, true);
				range_types<int8_t>("int8_ext", W, Q, true);
				if (Q == 4)
				{
					range_types<int8_t>("int8", W, Q, false);
					range_types<uint8_t>("uint8", W, Q, false);
					range_types<int16_t>("int16", W, Q, false);
					range_types<uint16_t>("uint16", W, Q, false);
					range_types<int64_t>("int64", W, Q, false);
					range_types<uint64_t>("uint64", W, Q, false);
					range_types<eu>("enumu", W, Q, false);
					range_types<plain_enum>("plain_enum", W, Q, false);
					range_types<uint8_t>("uint8_ext", W, Q, true);
					range_types<uint16_t>("uint16_ext", W, Q, true);
					range_types<unsigned>("unsigned_ext", W, Q, true);
					range_types<int64_t>("int64_ext", W, Q, true);
					range_types<uint64_t>("uint64_ext", W, Q, true);
				}
				collections(W, Q);
			}
		for (int W = 1; W <= 5; W++)
		{
			wide(W);
			end_only(W);
		}
		mc::explore("contended_w1q1n3", opts(3, 4), [] { contended(1, 1, 3); });
		mc::explore("contended_w1q2n3", opts(3, 4), [] { contended(1, 2, 3); });
		mc::explore("contended_w2q2n3", opts(2, 3), [] { contended(2, 2, 3); });
		mc::explore("contended_w2q4n5", opts(2, 3), [] { contended(2, 4, 5); });
	}

	//---------------------------------------------------------------------------------------------- C08 spin_mutex
	struct guarded
	{
		muu::spin_mutex m;
		int data = 0;
		mc::quiet_counter holders;
		void enter()
		{
			MC_REQ(holders.add(1) == 1);
			int d = data;
			mc::point();
			data = d + 1;
			MC_REQ(holders.add(-1) == 0);
		}
	};
	void spin_lock(int T, int K)
	{
		guarded g;
		std::vector<std::thread> ts;
		auto body = [&] {
			for (int i = 0; i < K; i++)
			{
				g.m.lock();
				g.enter();
				g.m.unlock();
			}
		};
		for (int i = 1; i < T; i++)
			ts.emplace_back(body);
		body();
		for (auto& t : ts)
			t.join();
		MC_REQ(g.data == T * K);
	}
	void spin_try(int T)
	{
		guarded g;
		mc::quiet_counter got;
		std::vector<std::thread> ts;
		auto body = [&](bool blocking) {
			if (g.m.try_lock())
			{
				got.add(1);
				g.enter();
				g.m.unlock();
			}
			if (blocking)
			{
				g.m.lock();
				got.add(1);
				g.enter();
				g.m.unlock();
			}
		};
		for (int i = 1; i < T; i++)
			ts.emplace_back(body, i == 1);
		body(true);
		for (auto& t : ts)
			t.join();
		MC_REQ(g.data == got.get());
		mc::outcome(got.get());
		MC_REQ(g.m.try_lock());
		g.m.unlock();
	}
	void spin_seq()
	{
		muu::spin_mutex m;
		for (int k = 0; k < 4; k++)
		{
			MC_REQ(m.try_lock());
			MC_REQ(!m.try_lock());
			MC_REQ(!m.try_lock());
			std::thread t{ [&] { MC_REQ(!m.try_lock()); } };
			t.join();
			m.unlock();
			m.lock();
			MC_REQ(!m.try_lock());
			m.unlock();
		}
	}
	void spin_handover()
	{
		// long hold: the waiter goes through every back-off stage and still gets the lock with the data visible
		guarded g;
		std::unique_ptr<int> x;
		g.m.lock();
		std::thread t{ [&] {
			std::lock_guard l{ g.m };
			MC_REQ(x && *x == 5);
			x.reset();
		} };
		for (int i = 0; i < 30; i++)
			mc::yield_point();
		x = std::make_unique<int>(5);
		g.m.unlock();
		t.join();
		MC_REQ(!x);
	}
	void spin_two()
	{
		muu::spin_mutex a, b;
		int d = 0;
		std::thread t{ [&] {
			std::scoped_lock l{ a, b };
			d++;
		} };
		{
			std::scoped_lock l{ b, a };
			d++;
		}
		t.join();
		MC_REQ(d == 2);
	}
	void C08()
	{
		mc::explore("lock_t2k1", opts(6, 9), [] { spin_lock(2, 1); });
		mc::explore("lock_t2k2", opts(5, 7), [] { spin_lock(2, 2); });
		mc::explore("lock_t2k4", opts(4, 5), [] { spin_lock(2, 4); });
		mc::explore("lock_t3k1", opts(4, 5), [] { spin_lock(3, 1); });
		mc::explore("lock_t3k2", opts(3, 4), [] { spin_lock(3, 2); });
		mc::explore("lock_t4k1", opts(3, 4), [] { spin_lock(4, 1); });
		mc::explore("try_t2", opts(6, 8), [] { spin_try(2); });
		mc::explore("try_t3", opts(4, 5), [] { spin_try(3); });
		mc::explore("sequential", opts(3, 4), [] { spin_seq(); });
		mc::explore("handover", opts(3, 4), [] { spin_handover(); });
		mc::explore("scoped_lock_two", opts(4, 5), [] { spin_two(); });
	}

	//---------------------------------------------------------------------------------------------- C09 task storage
	constexpr int W9 = 2;
	mc::quiet_counter calls, live_objs, wrong;
	mc::quiet_counter worker_arg_bad;
	void reset9()
	{
		calls.v = live_objs.v = wrong.v = worker_arg_bad.v = 0;
	}
	void fn0() noexcept
	{
		calls.add(1);
	}
	void fn1(size_t w) noexcept
	{
		calls.add(1);
		if (w >= W9)
			worker_arg_bad.add(1);
	}

	template <size_t N, bool Arg>
	struct pod_task
	{
		unsigned char b[N];
		pod_task()
		{
			for (size_t i = 0; i < N; i++)
				b[i] = (unsigned char)(i * 7 + N);
		}
		void check() const noexcept
		{
			calls.add(1);
			for (size_t i = 0; i < N; i++)
				if (b[i] != (unsigned char)(i * 7 + N))
					wrong.add(1);
		}
		template <typename... A>
		void run(A...) const noexcept
		{
			check();
		}
		void operator()() const noexcept
		{
			static_assert(!Arg);
			check();
		}
	};
	template <size_t N>
	struct pod_task<N, true>
	{
		unsigned char b[N];
		pod_task()
		{
			for (size_t i = 0; i < N; i++)
				b[i] = (unsigned char)(i * 7 + N);
		}
		void operator()(size_t w) const noexcept
		{
			calls.add(1);
			if (w >= W9)
				worker_arg_bad.add(1);
			for (size_t i = 0; i < N; i++)
				if (b[i] != (unsigned char)(i * 7 + N))
					wrong.add(1);
		}
	};

	enum kind
	{
		move_only,
		copy_only,
		both,
		assign_only_move,
		assign_only_copy
	};
	// owns heap memory: a bitwise copy, a lost destructor or a double destruction shows up in the heap oracle
	template <kind K, size_t Pad, size_t Align = 8>
	struct alignas(Align) owning
	{
		int* p;
		unsigned char pad[Pad];
		owning* self; // objects with address identity must be relocated by their own constructors

		void fill() noexcept
		{
			for (size_t i = 0; i < Pad; i++)
				pad[i] = (unsigned char)(i + 3);
			self = this;
			live_objs.add(1);
			if (reinterpret_cast<uintptr_t>(this) % Align)
				wrong.add(1);
		}
		explicit owning(int v) : p{ new int{ v } }
		{
			fill();
		}
		owning() noexcept
			requires(K == assign_only_copy || K == assign_only_move)
		: p{ nullptr }
		{
			fill();
		}
		owning(owning&& o) noexcept
			requires(K == move_only || K == both)
		: p{ std::exchange(o.p, nullptr) }
		{
			fill();
		}
		owning(const owning& o) noexcept
			requires(K == copy_only || K == both)
		: p{ o.p ? new int{ *o.p } : nullptr }
		{
			fill();
		}
		owning& operator=(owning&& o) noexcept
			requires(K == assign_only_move)
		{
			std::swap(p, o.p);
			return *this;
		}
		owning& operator=(const owning& o) noexcept
			requires(K == assign_only_copy)
		{
			delete p;
			p = o.p ? new int{ *o.p } : nullptr;
			return *this;
		}
		~owning() noexcept
		{
			if (self != this)
				wrong.add(1);
			delete p;
			live_objs.add(-1);
		}
		void operator()(size_t w) noexcept
		{
			calls.add(1);
			if (w >= W9)
				worker_arg_bad.add(1);
			if (self != this || !p || *p != 42 || reinterpret_cast<uintptr_t>(this) % Align)
				wrong.add(1);
			for (size_t i = 0; i < Pad; i++)
				if (pad[i] != (unsigned char)(i + 3))
					wrong.add(1);
		}
	};
	// same thing for use in for_each: called once per element
	template <kind K, size_t Pad>
	struct owning_each : owning<K, Pad>
	{
		using owning<K, Pad>::owning;
		void operator()(int v, size_t b) noexcept
		{
			owning<K, Pad>::operator()(b);
			if (v < 0 || v >= 5)
				wrong.add(1);
		}
	};

	void settled(int n)
	{
		MC_REQ(calls.get() == n);
		MC_REQ(wrong.get() == 0);
		MC_REQ(worker_arg_bad.get() == 0);
	}

	template <typename F>
	void task_case(const char* name, int n, F&& f, int quick = 1, int thorough = 2)
	{
		mc::explore(nm("task_%s", name),
					opts(quick, thorough),
					[&]
					{
						reset9();
						{
							thread_pool p{ (size_t)W9, 2 };
							f(p);
							p.wait();
							settled(n);
						}
						MC_REQ(live_objs.get() == 0);
						no_threads();
					});
		// and when the pool is destroyed without waiting: whatever did not run is still disposed of
		mc::explore(nm("drop_%s", name),
					opts(quick, thorough),
					[&]
					{
						reset9();
						{
							thread_pool p{ (size_t)W9, 2 };
							f(p);
						}
						MC_REQ(calls.get() <= n);
						MC_REQ(wrong.get() == 0);
						MC_REQ(live_objs.get() == 0);
						no_threads();
					});
	}
	template <size_t N>
	void pods()
	{
		task_case(nm("pod%zu", N), 2, [](thread_pool& p) {
			p.enqueue(pod_task<N, false>{});
			p.enqueue(pod_task<N, true>{});
		}, 0, 1);
		task_case(nm("pod%zu_lvalue", N), 3, [](thread_pool& p) {
			static pod_task<N, false> a;
			static const pod_task<N, true> b;
			p.enqueue(a);
			p.enqueue(b);
			p.enqueue(a);
		}, 0, 1);
	}
	template <kind K, size_t Pad>
	void owners(const char* n)
	{
		task_case(nm("%s_%zu", n, Pad), 1, [](thread_pool& p) { p.enqueue(owning<K, Pad>{ 42 }); });
		if constexpr (K == both || K == copy_only)
			task_case(nm("%s_%zu_lvalue", n, Pad), 2, [](thread_pool& p) {
				owning<K, Pad> o{ 42 };
				p.enqueue(o);
				const owning<K, Pad> c{ 42 };
				(void)c;
				p.enqueue(o);
			}, 0, 1);
	}
	void C09()
	{
		task_case("function_pointer", 4, [](thread_pool& p) {
			p.enqueue(fn0);
			p.enqueue(&fn1);
			auto* f = &fn0;
			p.enqueue(f);
			void (*const g)(size_t) noexcept = &fn1;
			p.enqueue(g);
		}, 0, 1);
		task_case("stateless_lambda", 4, [](thread_pool& p) {
			p.enqueue([]() noexcept { calls.add(1); });
			p.enqueue([](size_t w) noexcept { fn1(w); });
			auto l = []() noexcept { calls.add(1); };
			p.enqueue(l);
			const auto m = [](size_t w) noexcept { fn1(w); };
			p.enqueue(m);
		}, 0, 1);
		pods<1>();
		pods<7>();
		pods<8>();
		pods<16>();
		pods<31>();
		pods<32>();
		pods<33>();
		pods<40>();
		pods<55>();
		pods<56>();
		owners<move_only, 8>("move_only");
		owners<move_only, 40>("move_only");
		owners<both, 8>("both");
		owners<both, 40>("both");
		owners<copy_only, 8>("copy_only");
		owners<assign_only_move, 8>("assign_move");
		owners<assign_only_copy, 8>("assign_copy");
		task_case("overaligned", 2, [](thread_pool& p) {
			p.enqueue(owning<move_only, 8, 32>{ 42 });
			p.enqueue(owning<both, 8, 32>{ 42 });
		}, 0, 1);
		// lvalues too big to store are used in place
		task_case("big_lvalue", 2, [](thread_pool& p) {
			static pod_task<200, true> big;
			p.enqueue(big);
			static pod_task<57, false> big2;
			p.enqueue(big2);
		}, 0, 1);
		// batched tasks
		task_case("each_fn", 5, [](thread_pool& p) { p.for_each(0, 5, fn0); }, 0, 1);
		task_case("each_owning_rvalue", 5, [](thread_pool& p) { p.for_each(0, 5, owning_each<both, 8>{ 42 }); });
		task_case("each_owning_copy_only", 5, [](thread_pool& p) { p.for_each(0, 5, owning_each<copy_only, 8>{ 42 }); },
				  0, 1);
		task_case("each_owning_lvalue", 5, [](thread_pool& p) {
			owning_each<both, 8> o{ 42 };
			p.for_each(0, 5, o);
			p.wait(); // large or address-sensitive lvalues may be used in place
		}, 0, 1);
		task_case("each_pod", 10, [](thread_pool& p) {
			p.for_each(0, 5, pod_task<32, false>{});
			static pod_task<64, false> big;
			p.for_each(0, 5, big);
		}, 0, 1);
		task_case("worker_index", 6, [](thread_pool& p) {
			for (int i = 0; i < 6; i++)
				p.enqueue([](size_t w) noexcept { fn1(w); });
		}, 1, 2);
	}
}

int main(int c, char** v)
{
	vf::init(c, v);
	std::string which = vf::args.empty() ? "" : vf::args[0];
	if (which == "C05") C05();
	if (which == "C08") C08();
	if (which == "C09") C09();
	return vf::finish();
}
