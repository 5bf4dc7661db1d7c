// see mc.h. Compiled WITHOUT -fsanitize=thread.
#include "mc.h"
#include "vf.h"
#include <pthread.h>
#include <time.h>
#include <errno.h>
#include <sched.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <linux/futex.h>
#include <cxxabi.h>
#include <chrono>
#include <algorithm>
#include <unordered_map>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace
{
	using u64 = uint64_t;

	constexpr int MAXT		   = 12;
	constexpr size_t STACKSZ   = 256 * 1024;
	constexpr size_t ARENASZ   = 64u << 20;
	constexpr size_t GRAN	   = 8;
	constexpr size_t MAXCHOICE = 1 << 16;

	inline u64 mix(u64 h, u64 v)
	{
		h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
		h ^= h >> 31;
		h *= 0xBF58476D1CE4E5B9ull;
		h ^= h >> 29;
		return h;
	}

	struct vclock
	{
		uint32_t c[MAXT];
		void clear()
		{
			__builtin_memset(c, 0, sizeof c);
		}
		void join(const vclock& o)
		{
			for (int i = 0; i < MAXT; i++)
				if (o.c[i] > c[i])
					c[i] = o.c[i];
		}
	};

	enum tstate
	{
		T_UNUSED,
		T_READY,
		T_MUTEX,
		T_COND,
		T_JOIN,
		T_SLEEP,
		T_FUTEX,
		T_ONCE,
		T_DONE
	};

	struct thread_rec
	{
		tstate st;
		void* sp;
		char* stack;
		void* wait_obj;
		void* wait_mutex;
		int64_t deadline; // -1 none
		bool timed_out;
		bool detached, joined;
		void* (*fn)(void*);
		void* arg;
		void* ret;
		vclock vc;
		vclock acq_pending; // for acquire fences
		vclock rel_fence;
		bool has_rel_fence;
		u64 hist;
		void* eh[2];
		u64 yields; // consecutive
		u64 tls_self;
		char name[16];
	};

	struct sync_rec
	{
		void* addr;
		int owner; // mutex: -1 free
		vclock vc;
		u64 hist;
		uint32_t count;
	};

	struct acc
	{
		uint32_t clk;
		uint8_t tid;
		uint8_t mask;
		uint8_t kind; // bit0 write, bit1 atomic
		uint8_t pad;
	};
	struct cell
	{
		u64 addr; // granule address
		u64 epoch;
		int n;
		acc a[10];
	};

	// ---- world state (reset per execution) ----
	thread_rec T[MAXT];
	int nthreads = 0;
	int cur		 = -1; // running fiber, -1: scheduler
	bool in_engine		= true;
	void* sched_sp		= nullptr;
	void* sched_eh[2]	= {};
	int64_t vtime		= 0;
	bool time_deviated	= false;
	u64 steps			= 0;
	u64 consecutive		= 0;
	int budget_used		= 0;
	int creates			= 0;
	u64 nallocs			= 0;

	char* arena			= nullptr;
	size_t arena_used	= 0;
	uint8_t* poison		= nullptr; // 1 byte per granule: 0 unallocated, 1 live, 2 freed
	size_t poison_high	= 0;

	struct block
	{
		size_t off, size;
		bool freed, expected;
	};
	std::vector<block>* blocks = nullptr;

	constexpr size_t CELLS = 1 << 18;
	cell* cells			   = nullptr;
	u64 cell_epoch		   = 1;

	constexpr size_t SYNCS = 1 << 13;
	sync_rec* syncs		   = nullptr; // open addressing
	u64* sync_epoch		   = nullptr;

	mc::options opt;

	// ---- choices ----
	struct choice
	{
		uint16_t pick, n;
		uint8_t cost[2 * MAXT + 4];
	};
	std::vector<choice>* trail = nullptr; // of this execution
	std::vector<uint16_t>* prefix = nullptr;
	size_t trail_pos = 0;
	int bound_now	 = 0;

	std::string* fail_msg = nullptr;
	bool failed = false, pruned = false;
	std::string* outcome_str = nullptr;

	struct seen_key
	{
		u64 h;
	};
	std::unordered_map<u64, int8_t>* seen = nullptr; // state hash -> largest remaining budget explored
	std::unordered_set<u64>* all_states	  = nullptr;
	bool caching						  = true;

	const char* prog_name = "";
	char key_text[60000];

	struct engine_guard
	{
		bool prev;
		engine_guard() : prev(in_engine)
		{
			in_engine = true;
		}
		~engine_guard()
		{
			in_engine = prev;
		}
	};

	//---------------------------------------------------------------- context switch
	extern "C" void mc_switch(void** save, void* load);
	asm(R"(
	.text
	.globl mc_switch
	.type mc_switch,@function
mc_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
	.size mc_switch,.-mc_switch
)");

	void save_eh(void** to)
	{
		void** g = reinterpret_cast<void**>(abi::__cxa_get_globals());
		to[0]	 = g[0];
		to[1]	 = g[1];
	}
	void load_eh(void** from)
	{
		void** g = reinterpret_cast<void**>(abi::__cxa_get_globals());
		g[0]	 = from[0];
		g[1]	 = from[1];
	}

	void switch_to(int t)
	{
		// from fiber `cur` to fiber t
		int from = cur;
		if (from == t)
			return;
		save_eh(T[from].eh);
		load_eh(T[t].eh);
		cur = t;
		mc_switch(&T[from].sp, T[t].sp);
	}
	[[noreturn]] void to_scheduler()
	{
		void* dummy;
		save_eh(T[cur].eh);
		load_eh(sched_eh);
		in_engine = true;
		mc_switch(&dummy, sched_sp);
		__builtin_unreachable();
	}

	std::string schedule_string()
	{
		std::string s;
		for (size_t i = 0; i < trail->size(); i++)
			if ((*trail)[i].pick)
				s += (s.empty() ? "" : ",") + std::to_string(i) + ":" + std::to_string((*trail)[i].pick);
		return s;
	}

	[[noreturn]] void fail_exec(const std::string& m)
	{
		in_engine = true;
		*fail_msg = m;
		failed	  = true;
		if (cur < 0)
			abort();
		to_scheduler();
	}

	//---------------------------------------------------------------- sync objects
	sync_rec& sync(void* a)
	{
		size_t i = (mix(0, (u64)a)) & (SYNCS - 1);
		while (sync_epoch[i] == cell_epoch && syncs[i].addr != a)
			i = (i + 1) & (SYNCS - 1);
		if (sync_epoch[i] != cell_epoch)
		{
			sync_epoch[i] = cell_epoch;
			syncs[i].addr = a;
			syncs[i].owner = -1;
			syncs[i].vc.clear();
			syncs[i].hist  = (u64)0x51;
			syncs[i].count = 0;
		}
		return syncs[i];
	}
	// address identity that does not depend on ASLR: arena offsets are deterministic, stacks too (same per run),
	// globals are constant within the process; only used inside one process.
	u64 oid(void* a)
	{
		return (u64)a;
	}

	//---------------------------------------------------------------- race detector
	const char* where(u64 addr)
	{
		static char b[128];
		if (addr >= (u64)arena && addr < (u64)arena + ARENASZ)
		{
			for (auto& bl : *blocks)
				if (addr - (u64)arena >= bl.off && addr - (u64)arena < bl.off + bl.size)
				{
					snprintf(b, sizeof b, "heap block of %zu bytes, offset %zu%s", bl.size, (size_t)(addr - (u64)arena - bl.off), bl.freed ? " (freed)" : "");
					return b;
				}
			return "heap (no live block)";
		}
		for (int i = 0; i < nthreads; i++)
			if (T[i].stack && addr >= (u64)T[i].stack && addr < (u64)T[i].stack + STACKSZ)
			{
				snprintf(b, sizeof b, "stack of thread %d", i);
				return b;
			}
		return "global";
	}

	inline cell& get_cell(u64 g)
	{
		size_t i = mix(7, g) & (CELLS - 1);
		while (cells[i].epoch == cell_epoch && cells[i].addr != g)
			i = (i + 1) & (CELLS - 1);
		if (cells[i].epoch != cell_epoch)
		{
			cells[i].epoch = cell_epoch;
			cells[i].addr  = g;
			cells[i].n	   = 0;
		}
		return cells[i];
	}

	inline void access1(u64 g, uint8_t mask, uint8_t kind)
	{
		cell& c		   = get_cell(g);
		thread_rec& me = T[cur];
		int keep	   = 0;
		for (int i = 0; i < c.n; i++)
		{
			acc& a = c.a[i];
			if ((a.mask & mask))
			{
				if (a.tid != cur)
				{
					if (((a.kind | kind) & 1) && !((a.kind & 2) && (kind & 2)) && a.clk > me.vc.c[a.tid])
					{
						char b[300];
						snprintf(b,
								 sizeof b,
								 "data race: %s%s by thread %d vs earlier unordered %s%s by thread %d on %s",
								 (kind & 2) ? "atomic " : "",
								 (kind & 1) ? "write" : "read",
								 cur,
								 (a.kind & 2) ? "atomic " : "",
								 (a.kind & 1) ? "write" : "read",
								 (int)a.tid,
								 where(g));
						fail_exec(b);
					}
					// ordered before us: superseded by a write of ours covering it
					if ((kind & 1) && !(a.mask & ~mask) && !(kind & 2))
						continue;
				}
				else if (!(a.mask & ~mask) && ((kind & 1) || !(a.kind & 1)) && (a.kind & 2) >= (kind & 2))
					continue; // same thread, subsumed
			}
			c.a[keep++] = a;
		}
		if (keep == 10)
		{ // drop the oldest (reported as a limitation)
			__builtin_memmove(c.a, c.a + 1, sizeof(acc) * 9);
			keep = 9;
		}
		c.a[keep++] = acc{ me.vc.c[cur], (uint8_t)cur, mask, kind, 0 };
		c.n			= keep;
	}

	void access(const volatile void* p, size_t n, uint8_t kind)
	{
		if (in_engine || cur < 0 || !n)
			return;
		in_engine = true;
		u64 a	  = (u64)p;
		if (a < 4096)
		{
			in_engine = false; // let it fault
			return;
		}
		if (a >= (u64)arena && a < (u64)arena + ARENASZ)
		{
			for (u64 g = (a - (u64)arena) / GRAN; g <= (a + n - 1 - (u64)arena) / GRAN; g++)
				if (poison[g] != 1)
					fail_exec(std::string(poison[g] == 2 ? "use of freed memory" : "access outside any live heap block") + ": "
							  + ((kind & 1) ? "write" : "read") + " by thread " + std::to_string(cur) + " on " + where(a));
		}
		u64 end = a + n;
		while (a < end)
		{
			u64 g	   = a & ~u64(7);
			unsigned o = unsigned(a - g);
			unsigned l = (unsigned)std::min<u64>(8 - o, end - a);
			access1(g, (uint8_t)(((1u << l) - 1u) << o), kind);
			a += l;
		}
		in_engine = false;
	}

	//---------------------------------------------------------------- scheduler
	bool enabled(int t)
	{
		switch (T[t].st)
		{
			case T_READY: return true;
			case T_MUTEX: return sync(T[t].wait_obj).owner < 0;
			case T_JOIN: return T[(int)(intptr_t)T[t].wait_obj].st == T_DONE;
			case T_ONCE: return sync(T[t].wait_obj).owner != 1;
			default: return false;
		}
	}
	bool timed(int t)
	{
		return (T[t].st == T_COND || T[t].st == T_SLEEP || T[t].st == T_FUTEX) && T[t].deadline >= 0;
	}

	u64 state_hash()
	{
		u64 h = 0;
		for (int i = 0; i < nthreads; i++)
			h += mix(mix(i + 1, T[i].hist), (u64)T[i].st * 131 + (T[i].timed_out ? 7 : 0)
												+ (T[i].st == T_COND || T[i].st == T_MUTEX || T[i].st == T_FUTEX ? oid(T[i].wait_obj) * 31 + (u64)T[i].deadline * 17 : (T[i].st == T_SLEEP ? (u64)T[i].deadline : 0)));
		h = mix(h, (u64)vtime);
		h = mix(h, (u64)cur);
		return h;
	}

	// one option = run thread t in some way
	struct option_t
	{
		int t;
		int how; // 0 run, 1 timeout, 2 spurious
		int cost;
	};

	void wake_cond(int t, bool timeout)
	{
		T[t].timed_out = timeout;
		T[t].hist	   = mix(T[t].hist, timeout ? 0x7107 : 0x7aba);
		if (T[t].st == T_COND)
		{
			T[t].st		  = T_MUTEX;
			T[t].wait_obj = T[t].wait_mutex;
		}
		else
			T[t].st = T_READY;
	}

	void spend_time_to(int64_t d)
	{
		if (d > vtime)
			vtime = d;
	}

	enum point_kind
	{
		P_OP,
		P_YIELD,
		P_BLOCK
	};

	// returns when the current fiber is scheduled again
	void sched_point(point_kind kind)
	{
		// precondition: in_engine
		T[cur].hist = mix(T[cur].hist, 0x90 + (u64)kind); // program position
		while (true)
		{
			vf::ctx.tick = vf::ctx.tick + 1;
			steps++;
			if (steps > opt.max_steps)
				fail_exec("no termination: more than " + std::to_string(opt.max_steps)
						  + " scheduling steps (livelock), main thread state " + std::to_string((int)T[0].st));
			if (vtime > opt.max_virtual_s * 1000000000ll)
				fail_exec("no progress: the execution is still waiting after " + std::to_string(opt.max_virtual_s)
						  + " s of virtual time (main thread state " + std::to_string((int)T[0].st) + ")");

			if (kind == P_OP && ++consecutive > 400)
			{
				kind		= P_YIELD;
				consecutive = 0;
			}

			option_t o[3 * MAXT];
			int n		= 0;
			bool cur_en = kind != P_BLOCK && enabled(cur);
			int others	= 0;
			for (int i = 0; i < nthreads; i++)
				if (i != cur && enabled(i))
					others++;

			if (cur_en && kind == P_OP)
			{
				o[n++] = { cur, 0, 0 };
				for (int k = 1; k < nthreads; k++)
				{
					int i = (cur + k) % nthreads;
					if (enabled(i))
						o[n++] = { i, 0, 1 };
				}
			}
			else if (cur_en) // yield
			{
				T[cur].yields++;
				if (others)
				{
					bool first = true;
					for (int k = 1; k < nthreads; k++)
					{
						int i = (cur + k) % nthreads;
						if (enabled(i))
							o[n++] = { i, 0, first ? 0 : 1 }, first = false;
					}
					o[n++] = { cur, 0, 1 };
				}
				else
					o[n++] = { cur, 0, 0 };
			}
			else // blocked or finished: free choice
			{
				for (int k = 1; k <= nthreads; k++)
				{
					int i = (cur + k) % nthreads;
					if (enabled(i))
						o[n++] = { i, 0, 0 };
				}
			}
			bool force_time = false;
			if (cur_en && kind == P_YIELD && !others && T[cur].yields > 300)
			{
				force_time	  = true;
				T[cur].yields = 0;
			}

			// timed waits
			int64_t earliest = -1;
			for (int i = 0; i < nthreads; i++)
				if (timed(i) && (earliest < 0 || T[i].deadline < earliest))
					earliest = T[i].deadline;
			if (earliest >= 0)
			{
				if (n == 0 || force_time)
				{
					if (force_time)
						n = 0;
					for (int i = 0; i < nthreads; i++)
						if (timed(i) && T[i].deadline == earliest)
							o[n++] = { i, 1, 0 };
				}
				else if (opt.early_timeouts)
					for (int i = 0; i < nthreads; i++)
						if (timed(i) && T[i].deadline == earliest)
							o[n++] = { i, 1, 1 };
			}
			if (opt.spurious && n)
				for (int i = 0; i < nthreads; i++)
					if (T[i].st == T_COND && !(timed(i) && opt.early_timeouts))
						o[n++] = { i, 2, 1 };

			if (n == 0)
			{
				std::string m = "deadlock: every thread is blocked:";
				static const char* names[] = { "unused", "ready", "mutex", "condvar", "join", "sleep", "futex", "once", "done" };
				for (int i = 0; i < nthreads; i++)
					m += " t" + std::to_string(i) + "=" + names[T[i].st];
				fail_exec(m);
			}

			int pick = 0;
			if (n > 1)
			{
				if (trail_pos < prefix->size())
				{
					pick = (*prefix)[trail_pos];
					if (pick >= n)
						fail_exec("REPLAY DIVERGENCE: recorded choice out of range");
				}
				else if (caching)
				{
					u64 h	   = mix(state_hash(), (u64)kind * 3 + 1);
					int remain = bound_now - budget_used;
					auto it	   = seen->find(h);
					if (it != seen->end() && it->second >= remain)
					{
						pruned = true;
						to_scheduler();
					}
					if (it != seen->end())
						it->second = (int8_t)remain;
					else
						seen->emplace(h, (int8_t)remain);
				}
				choice c{};
				c.pick = (uint16_t)pick;
				c.n	   = (uint16_t)n;
				for (int i = 0; i < n; i++)
					c.cost[i] = (uint8_t)o[i].cost;
				if (trail->size() >= MAXCHOICE)
					fail_exec("too many choice points (livelock)");
				trail->push_back(c);
				trail_pos++;
			}
			all_states->insert(state_hash());
			budget_used += o[pick].cost;
			int t = o[pick].t;
			if (o[pick].how == 1)
			{
				if (o[pick].cost)
					time_deviated = true;
				spend_time_to(T[t].deadline);
				bool was_cond = T[t].st == T_COND;
				wake_cond(t, true);
				if (was_cond && !enabled(t))
				{
					// woken but the mutex is held: choose again
					if (kind == P_YIELD)
						kind = P_OP;
					continue;
				}
			}
			else if (o[pick].how == 2)
			{
				wake_cond(t, false);
				if (!enabled(t))
				{
					if (kind == P_YIELD)
						kind = P_OP;
					continue;
				}
			}
			if (t != cur)
			{
				T[cur].yields = kind == P_YIELD ? T[cur].yields : 0;
				consecutive	  = 0;
				switch_to(t);
			}
			// we are running again (either immediately or after somebody switched back to us)
			return;
		}
	}

	void hb_release(sync_rec& s)
	{
		s.vc.join(T[cur].vc);
		T[cur].vc.c[cur]++;
	}
	void hb_acquire(sync_rec& s)
	{
		T[cur].vc.join(s.vc);
	}

	void block_until_mutex(void* m)
	{
		T[cur].st		= T_MUTEX;
		T[cur].wait_obj = m;
		if (sync(m).owner == cur)
			fail_exec("self-deadlock: a thread locks a mutex it already holds");
		if (sync(m).owner >= 0)
			sched_point(P_BLOCK);
		// the mutex is free now
		T[cur].st	= T_READY;
		sync_rec& s = sync(m);
		if (s.owner >= 0)
		{
			fprintf(stderr, "engine error: mutex\n");
			abort();
		}
		s.owner		= cur;
		T[cur].hist = mix(mix(T[cur].hist, oid(m)), s.hist);
		s.hist		= T[cur].hist;
		hb_acquire(s);
	}

	void release_mutex(void* m)
	{
		sync_rec& s = sync(m);
		if (s.owner != cur)
			fail_exec(s.owner < 0 ? "unlock of a mutex that is not locked" : "unlock of a mutex held by another thread");
		T[cur].hist = mix(mix(T[cur].hist, 0x0FF), oid(m));
		s.owner		= -1;
		s.hist		= T[cur].hist;
		hb_release(s);
	}

	bool live()
	{
		return cur >= 0 && !in_engine;
	}

	void fiber_main()
	{
		int me	  = cur;
		in_engine = false;
		T[me].ret = T[me].fn(T[me].arg);
		in_engine = true;
		T[me].hist = mix(T[me].hist, 0xD0E);
		if (me == 0)
		{
			// main body done
			T[0].st = T_DONE;
			to_scheduler();
		}
		T[me].st = T_DONE;
		// release to joiners
		sync((void*)(T + me)).vc.join(T[me].vc);
		sync((void*)(T + me)).hist = T[me].hist;
		sched_point(P_BLOCK);
		abort();
	}

	int new_thread(void* (*fn)(void*), void* arg)
	{
		int id		   = nthreads;
		thread_rec& r  = T[id];
		r.st		   = T_READY;
		r.wait_obj	   = nullptr;
		r.deadline	   = -1;
		r.timed_out	   = false;
		r.detached = r.joined = false;
		r.fn				  = fn;
		r.arg				  = arg;
		r.vc.clear();
		r.acq_pending.clear();
		r.has_rel_fence = false;
		r.hist			= mix(0x1234, id);
		r.eh[0] = r.eh[1] = nullptr;
		r.yields		  = 0;
		if (!r.stack)
			r.stack = (char*)mmap(nullptr, STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), mprotect(r.stack, 4096, PROT_NONE);
		u64 top		= ((u64)r.stack + STACKSZ) & ~u64(63);
		void** sp	= (void**)(top - 64);
		*--sp		= nullptr;			   // fake return address => alignment
		*--sp		= (void*)&fiber_main; // ret target
		for (int i = 0; i < 6; i++)
			*--sp = nullptr;
		r.sp = sp;
		nthreads++;
		if (cur >= 0)
		{
			r.vc.join(T[cur].vc);
			T[cur].vc.c[cur]++;
			r.hist = mix(r.hist, T[cur].hist);
		}
		r.vc.c[id] = 1;
		return id;
	}

	//---------------------------------------------------------------- heap
	bool arena_on = true;
	void* arena_alloc(size_t n, size_t align)
	{
		nallocs++;
		if (opt.fail_alloc_at >= 0 && (int)nallocs - 1 == opt.fail_alloc_at)
			return nullptr;
		if (align < 16)
			align = 16;
		size_t off = (arena_used + align - 1) & ~(align - 1);
		size_t sz  = n ? n : 1;
		if (off + sz + 64 > ARENASZ)
			return nullptr;
		size_t endg = (off + sz + GRAN - 1) / GRAN;
		__builtin_memset(poison + off / GRAN, 1, endg - off / GRAN);
		arena_used	= endg * GRAN + 32;
		poison_high = std::max(poison_high, endg + 1);
		blocks->push_back({ off, sz, false, false });
		return arena + off;
	}
	block* find_block(void* p)
	{
		size_t off = (size_t)((char*)p - arena);
		size_t lo = 0, hi = blocks->size();
		while (lo < hi)
		{
			size_t m = (lo + hi) / 2;
			if ((*blocks)[m].off < off)
				lo = m + 1;
			else
				hi = m;
		}
		return lo < blocks->size() && (*blocks)[lo].off == off ? &(*blocks)[lo] : nullptr;
	}
	bool in_arena(const void* p)
	{
		return arena && (char*)p >= arena && (char*)p < arena + ARENASZ;
	}

	//---------------------------------------------------------------- exploration
	std::function<void()> const* body_fn = nullptr;
	void* run_body(void*)
	{
		(*body_fn)();
		return nullptr;
	}

	void reset_world()
	{
		nthreads	  = 0;
		cur			  = -1;
		vtime		  = 0;
		time_deviated = false;
		steps = consecutive = 0;
		budget_used			= 0;
		creates				= 0;
		nallocs				= 0;
		trail->clear();
		trail_pos = 0;
		failed = pruned = false;
		outcome_str->clear();
		cell_epoch++;
		blocks->clear();
		if (poison_high)
			__builtin_memset(poison, 0, poison_high);
		poison_high = 0;
		arena_used	= 64;
	}

	void run_once()
	{
		reset_world();
		int m = new_thread(run_body, nullptr);
		save_eh(sched_eh);
		load_eh(T[m].eh);
		cur = m;
		mc_switch(&sched_sp, T[m].sp);
		// back: body finished, failed or pruned
		in_engine = true;
		int was	  = cur;
		cur		  = -1;
		if (!failed && !pruned)
		{
			(void)was;
			// the main body has returned: every thread must be done
			for (int i = 1; i < nthreads; i++)
				if (T[i].st != T_DONE && !failed)
				{
					failed	  = true;
					*fail_msg = "thread " + std::to_string(i) + " is still running after the test body finished";
				}
				else if (!T[i].joined && !T[i].detached && !failed)
				{
					failed	  = true;
					*fail_msg = "thread " + std::to_string(i) + " was never joined or detached";
				}
			if (!failed && opt.leak_check)
				for (auto& b : *blocks)
					if (!b.freed && !b.expected)
					{
						failed	  = true;
						*fail_msg = "memory leak: heap block of " + std::to_string(b.size) + " bytes never freed";
						break;
					}
		}
	}

	void fill_key()
	{
		std::string s = std::string(prog_name) + "|b" + std::to_string(bound_now) + "|" + schedule_string();
		if (s.size() > sizeof(key_text) - 1)
			s.resize(sizeof(key_text) - 1);
		__builtin_memcpy(key_text, s.c_str(), s.size() + 1);
	}

	void crash_handler(int sig)
	{
		in_engine = true;
		fill_key();
		vf::ctx.text = key_text;
		vf::on_signal(sig);
	}
	void terminate_handler()
	{
		in_engine = true;
		fill_key();
		vf::ctx.text = key_text;
		vf::on_terminate();
	}

	void setup()
	{
		static bool done = false;
		if (done)
			return;
		done   = true;
		arena  = (char*)mmap(nullptr, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		poison = (uint8_t*)mmap(nullptr, ARENASZ / GRAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		cells  = (cell*)mmap(nullptr, CELLS * sizeof(cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		syncs  = (sync_rec*)mmap(nullptr, SYNCS * sizeof(sync_rec), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		sync_epoch	= (u64*)mmap(nullptr, SYNCS * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		blocks		= new std::vector<block>;
		trail		= new std::vector<choice>;
		prefix		= new std::vector<uint16_t>;
		fail_msg	= new std::string;
		outcome_str = new std::string;
		seen		= new std::unordered_map<u64, int8_t>;
		all_states	= new std::unordered_set<u64>;
		trail->reserve(4096);
		blocks->reserve(4096);
		struct sigaction sa
		{};
		sa.sa_handler = crash_handler;
		sa.sa_flags	  = SA_ONSTACK;
		for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP })
			sigaction(s, &sa, nullptr);
		std::set_terminate(terminate_handler);
	}

	double now_s()
	{
		timespec ts;
		syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
		return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
	}
}

namespace mc
{
	bool explore(const char* name, const options& o, const std::function<void()>& body)
	{
		setup();
		in_engine = true;
		std::string gname = std::string("prog.") + name;
		static std::set<std::string> names;
		const char* stable = names.insert(gname).first->c_str();
		if (!vf::group((std::string(stable)).c_str()))
			return true;
		vf::ctx.group = stable;
		prog_name = names.insert(name).first->c_str();
		opt		  = o;
		body_fn	  = &body;
		bool ok	  = true;
		u64 execs = 0, total_steps = 0, pruned_n = 0, full = 0;
		std::map<std::string, u64> outcomes;
		double t0		= now_s();
		double max_s	= o.max_seconds;
		static const double process_start = now_s();
		if (!vf::thorough && max_s > 0)
		{ // whatever the machine, a quick run ends: later programs report the bound they reached
			double left = 220 - (now_s() - process_start);
			max_s		= left < 2 ? 2 : max_s < left ? max_s : left;
		}
		int max_bound	= o.bound;
		int completed	= -1;
		all_states->clear();

		// replay of one recorded schedule
		std::vector<uint16_t> fixed;
		bool replay = false;
		if (!vf::only.empty())
		{
			// key: prog.NAME;NAME|bB|i:c,i:c
			auto p = vf::only.find('|');
			if (p == std::string::npos)
				return true;
			if (vf::only.substr(0, p) != gname + ":" + name)
				return true;
			auto q	  = vf::only.find('|', p + 1);
			bound_now = atoi(vf::only.c_str() + p + 2);
			std::string s = vf::only.substr(q + 1);
			size_t i	  = 0;
			while (i < s.size())
			{
				size_t pos = strtoul(s.c_str() + i, nullptr, 10);
				i		   = s.find(':', i) + 1;
				unsigned c = (unsigned)strtoul(s.c_str() + i, nullptr, 10);
				i		   = s.find(',', i);
				i		   = i == std::string::npos ? s.size() : i + 1;
				fixed.resize(pos + 1);
				fixed[pos] = (uint16_t)c;
			}
			replay = true;
		}

		if (o.single && !replay && vf::shards > 1)
		{ // whole programs are dealt out to the shards instead of schedules
			static unsigned index = 0;
			if (index++ % vf::shards != vf::shard)
				return true;
		}

		// warm-up so that function-local statics are in the same state for every counted execution
		caching = false;
		prefix->clear();
		bound_now = replay ? bound_now : 0;
		{
			bool lc		   = opt.leak_check;
			opt.leak_check = false;
			arena_on	   = false;
			int a = opt.fail_alloc_at, b = opt.fail_thread_create_at;
			int sb		   = bound_now;
			bound_now	   = 0;
			opt.fail_alloc_at = opt.fail_thread_create_at = -1;
			run_once();
			opt.fail_alloc_at		  = a;
			opt.fail_thread_create_at = b;
			bound_now				  = sb;
			opt.leak_check			  = lc;
			arena_on				  = true;
		}

		if (replay)
		{
			std::string m[2];
			for (int k = 0; k < 2; k++)
			{
				*prefix = fixed;
				run_once();
				m[k] = failed ? *fail_msg : "";
			}
			if (m[0] != m[1])
				fprintf(stderr, "replay divergence\n");
			else if (!m[0].empty())
			{
				fill_key();
				vf::ctx.text = key_text;
				vf::fail("%s", m[0].c_str());
			}
			return m[0].empty();
		}

		for (int b = 0; b <= max_bound && ok; b++)
		{
			bound_now = b;
			seen->clear();
			caching = true;
			prefix->clear();
			u64 root_alts = 0;
			bool capped	  = false;
			while (true)
			{
				run_once();
				execs++;
				total_steps += steps;
				if (failed)
				{
					std::string msg = *fail_msg;
					// replay before report: same schedule twice, without pruning
					fill_key();
					*prefix = {};
					for (auto& c : *trail)
						prefix->push_back(c.pick);
					std::vector<uint16_t> sv = *prefix;
					caching					 = false;
					bool same				 = true;
					for (int k = 0; k < 2; k++)
					{
						*prefix = sv;
						run_once();
						same = same && failed && *fail_msg == msg;
					}
					vf::ctx.text = key_text;
					if (same)
						vf::fail("%s [deviation bound %d, execution %llu]", msg.c_str(), b, (unsigned long long)execs);
					else
						printf("note: %s: schedule did not reproduce: %s\n", name, msg.c_str());
					ok = false;
					break;
				}
				if (pruned)
					pruned_n++;
				else
				{
					full++;
					outcomes[*outcome_str]++;
				}
				if (o.single)
					break;
				// backtrack
				bool more = false;
				while (!trail->empty())
				{
					int used = 0;
					bool def = true;
					for (size_t i = 0; i + 1 < trail->size(); i++)
					{
						used += (*trail)[i].cost[(*trail)[i].pick];
						def = def && (*trail)[i].pick == 0;
					}
					choice& c = trail->back();
					unsigned nx = c.pick + 1u;
					while (nx < c.n)
					{
						if (used + c.cost[nx] <= b)
						{
							if (!def || vf::shards <= 1 || (root_alts++ % vf::shards) == vf::shard)
								break;
						}
						nx++;
					}
					if (nx < c.n)
					{
						c.pick = (uint16_t)nx;
						more   = true;
						break;
					}
					trail->pop_back();
				}
				if (!more)
					break;
				prefix->clear();
				for (auto& c : *trail)
					prefix->push_back(c.pick);
				if ((o.max_execs && execs >= o.max_execs) || (max_s > 0 && (execs & 63) == 0 && now_s() - t0 > max_s))
				{
					capped = true;
					break;
				}
			}
			if (capped)
			{
				static std::string ct;
				ct += (ct.empty() ? "" : "; ") + std::string(name) + ": bound " + std::to_string(b)
					+ " not completed (bound " + std::to_string(completed) + " was)";
				vf::cap(ct.c_str());
				break;
			}
			if (ok)
				completed = b;
		}
		vf::state(all_states->size());
		vf::trans(total_steps);
		vf::trace(execs);
		std::string oc;
		for (auto& [k, v] : outcomes)
			if (oc.size() < 300)
				oc += "{" + k + "}x" + std::to_string(v) + " ";
		printf("SAMPLE\t%s: bound completed=%d executions=%llu (complete=%llu, merged into a visited state=%llu) distinct states=%zu steps=%llu distinct outcomes=%zu: %s (%.1fs)\n",
			   stable,
			   completed,
			   (unsigned long long)execs,
			   (unsigned long long)full,
			   (unsigned long long)pruned_n,
			   all_states->size(),
			   (unsigned long long)total_steps,
			   outcomes.size(),
			   oc.c_str(),
			   now_s() - t0);
		fflush(stdout);
		return ok;
	}

	void fail(const char* fmt, ...)
	{
		in_engine = true;
		va_list ap;
		va_start(ap, fmt);
		char b[1024];
		vsnprintf(b, sizeof b, fmt, ap);
		va_end(ap);
		fail_exec(b);
	}
	int quiet_counter::add(int d)
	{
		if (cur >= 0)
		{
			engine_guard g;
			sync_rec& s = sync(this);
			T[cur].hist = mix(mix(T[cur].hist, (u64)d), s.hist);
			s.hist		= T[cur].hist;
		}
		return v += d;
	}
	int quiet_counter::get() const
	{
		if (cur >= 0)
		{
			engine_guard g;
			T[cur].hist = mix(T[cur].hist, sync((void*)this).hist);
		}
		return v;
	}
	void outcome(int v)
	{
		engine_guard g;
		*outcome_str += (outcome_str->empty() ? "" : ",") + std::to_string(v);
	}
	int64_t virtual_ns()
	{
		return vtime;
	}
	bool deviated_time()
	{
		return time_deviated;
	}
	int self()
	{
		return cur;
	}
	int live_threads()
	{
		int n = 0;
		for (int i = 1; i < nthreads; i++)
			n += T[i].st != T_DONE;
		return n;
	}
	int created_threads()
	{
		return nthreads - 1;
	}
	int unjoined_threads()
	{
		int n = 0;
		for (int i = 1; i < nthreads; i++)
			n += !T[i].joined && !T[i].detached;
		return n;
	}
	void expect_leak(void* p)
	{
		engine_guard g;
		if (block* b = find_block(p))
			b->expected = true;
	}
	uint64_t allocs_so_far()
	{
		return nallocs;
	}
	void point()
	{
		if (!live())
			return;
		engine_guard g;
		sched_point(P_OP);
	}
	void yield_point()
	{
		mc_pause();
	}
}

//====================================================================== interposed API
extern "C"
{
	void mc_pause()
	{
		if (!live())
			return;
		engine_guard g;
		T[cur].hist = mix(T[cur].hist, 0x9A5E);
		sched_point(P_YIELD);
	}

	//------------------------------------------------------------------ heap
	void* malloc(size_t n)
	{
		if (!live() || !arena_on)
			return __libc_malloc(n);
		engine_guard g;
		return arena_alloc(n, 16);
	}
	void free(void* p)
	{
		if (!p)
			return;
		if (!in_arena(p))
			return __libc_free(p);
		bool was = in_engine;
		in_engine = true;
		block* b = find_block(p);
		if (!b || b->freed)
		{
			if (cur >= 0)
				fail_exec(b ? "double free" : "free of a pointer that is not the start of a heap block");
			abort();
		}
		if (cur >= 0 && !was)
		{
			// freeing is a write to the whole block (races with concurrent users)
			in_engine = false;
			access(p, b->size, 1);
			in_engine = true;
		}
		b->freed = true;
		__builtin_memset(poison + b->off / GRAN, 2, (b->off + b->size + GRAN - 1) / GRAN - b->off / GRAN);
		in_engine = was;
	}
	void* calloc(size_t a, size_t b)
	{
		if (!live() || !arena_on)
			return __libc_calloc(a, b);
		engine_guard g;
		void* p = arena_alloc(a * b, 16);
		if (p)
			__builtin_memset(p, 0, a * b);
		return p;
	}
	void* realloc(void* p, size_t n)
	{
		if (!in_arena(p) && (!live() || !arena_on))
			return __libc_realloc(p, n);
		if (!p)
			return malloc(n);
		void* q = malloc(n);
		if (!q)
			return nullptr;
		size_t old = n;
		if (in_arena(p))
		{
			block* b = find_block(p);
			old		 = b ? b->size : 0;
		}
		__builtin_memcpy(q, p, std::min(n, old));
		free(p);
		return q;
	}
	void* memalign(size_t al, size_t n)
	{
		if (!live() || !arena_on)
			return __libc_memalign(al, n);
		engine_guard g;
		return arena_alloc(n, al);
	}
	void* aligned_alloc(size_t al, size_t n)
	{
		return memalign(al, n);
	}
	int posix_memalign(void** out, size_t al, size_t n)
	{
		void* p = memalign(al, n);
		if (!p)
			return ENOMEM;
		*out = p;
		return 0;
	}

	//------------------------------------------------------------------ threads
	int pthread_create(pthread_t* out, const pthread_attr_t*, void* (*fn)(void*), void* arg)
	{
		if (!live())
			abort();
		engine_guard g;
		int k = creates++;
		if (k == opt.fail_thread_create_at)
			return EAGAIN;
		if (nthreads >= MAXT)
			return EAGAIN;
		int id = new_thread(fn, arg);
		// a new thread may reuse a stack: forget accesses of an earlier owner
		*out		= (pthread_t)(0x1000 + id);
		T[cur].hist = mix(T[cur].hist, 0xC8EA7E);
		sched_point(P_OP);
		return 0;
	}
	int pthread_join(pthread_t th, void** ret)
	{
		if (!live())
			abort();
		engine_guard g;
		int id = (int)(th - 0x1000);
		if (id <= 0 || id >= nthreads)
			fail_exec("join of an invalid thread");
		if (T[id].joined || T[id].detached)
			fail_exec("join of a thread that was already joined or detached");
		sched_point(P_OP);
		if (T[id].st != T_DONE)
		{
			T[cur].st		= T_JOIN;
			T[cur].wait_obj = (void*)(intptr_t)id;
			sched_point(P_BLOCK);
			T[cur].st = T_READY;
		}
		T[id].joined = true;
		T[cur].vc.join(sync((void*)(T + id)).vc);
		T[cur].hist = mix(mix(T[cur].hist, 0x701), T[id].hist);
		if (ret)
			*ret = T[id].ret;
		return 0;
	}
	int pthread_detach(pthread_t th)
	{
		if (!live())
			return 0;
		T[th - 0x1000].detached = true;
		return 0;
	}
	pthread_t pthread_self()
	{
		return (pthread_t)(0x1000 + (cur < 0 ? 0 : cur));
	}
	int pthread_setname_np(pthread_t, const char*)
	{
		return 0;
	}
	int pthread_getname_np(pthread_t, char* b, size_t n)
	{
		if (n)
			b[0] = 0;
		return 0;
	}

	//------------------------------------------------------------------ mutex
	int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*)
	{
		(void)m;
		return 0;
	}
	int pthread_mutex_destroy(pthread_mutex_t* m)
	{
		if (live())
		{
			engine_guard g;
			if (sync(m).owner >= 0)
				fail_exec("a locked mutex is destroyed");
		}
		return 0;
	}
	static void touch(void* p, size_t n)
	{
		// using a synchronisation object in freed memory is a use-after-free
		if (in_arena(p))
			for (u64 g = ((u64)p - (u64)arena) / GRAN; g <= ((u64)p + n - 1 - (u64)arena) / GRAN; g++)
				if (poison[g] != 1)
					fail_exec("synchronisation object used after its memory was freed");
	}
	int pthread_mutex_lock(pthread_mutex_t* m)
	{
		if (!live())
			return 0;
		engine_guard g;
		sched_point(P_OP);
		touch(m, sizeof *m);
		block_until_mutex(m);
		return 0;
	}
	int pthread_mutex_trylock(pthread_mutex_t* m)
	{
		if (!live())
			return 0;
		engine_guard g;
		sched_point(P_OP);
		touch(m, sizeof *m);
		if (sync(m).owner >= 0)
		{
			T[cur].hist = mix(mix(mix(T[cur].hist, 0xB0B0), oid(m)), sync(m).hist);
			return EBUSY;
		}
		block_until_mutex(m);
		return 0;
	}
	int pthread_mutex_unlock(pthread_mutex_t* m)
	{
		if (!live())
			return 0;
		engine_guard g;
		sched_point(P_OP);
		touch(m, sizeof *m);
		release_mutex(m);
		return 0;
	}

	//------------------------------------------------------------------ condvar
	int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*)
	{
		return 0;
	}
	int pthread_cond_destroy(pthread_cond_t* c)
	{
		if (live())
		{
			engine_guard g;
			for (int i = 0; i < nthreads; i++)
				if (T[i].st == T_COND && T[i].wait_obj == c)
					fail_exec("a condition variable is destroyed while a thread waits on it");
		}
		return 0;
	}
	static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
	{
		sched_point(P_OP);
		touch(c, sizeof *c);
		touch(m, sizeof *m);
		release_mutex(m);
		T[cur].st		  = T_COND;
		T[cur].wait_obj	  = c;
		T[cur].wait_mutex = m;
		T[cur].deadline	  = deadline;
		T[cur].timed_out  = false;
		T[cur].hist		  = mix(mix(T[cur].hist, 0xC04D), oid(c));
		if (deadline >= 0 && deadline <= vtime)
		{
			T[cur].timed_out = true;
			T[cur].st		 = T_READY;
			sched_point(P_OP);
		}
		else
			sched_point(P_BLOCK);
		bool to = T[cur].timed_out;
		// when we get here we may run, and want the mutex
		T[cur].deadline = -1;
		block_until_mutex(m);
		return to ? ETIMEDOUT : 0;
	}
	int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
	{
		if (!live())
			abort();
		engine_guard g;
		return cond_wait_impl(c, m, -1);
	}
	static int64_t ns(const timespec* t)
	{
		return (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec;
	}
	constexpr int64_t EPOCH0 = 1000000ll * 1000000000ll; // virtual clocks start here
	int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t)
	{
		if (!live())
			abort();
		engine_guard g;
		int64_t d = ns(t) - EPOCH0;
		return cond_wait_impl(c, m, d < 0 ? 0 : d);
	}
	int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
	{
		return pthread_cond_clockwait(c, m, CLOCK_REALTIME, t);
	}
	static void notify(pthread_cond_t* c, bool all)
	{
		sched_point(P_OP);
		touch(c, sizeof *c);
		T[cur].hist = mix(mix(T[cur].hist, 0x407), oid(c));
		if (all)
		{
			for (int i = 0; i < nthreads; i++)
				if (T[i].st == T_COND && T[i].wait_obj == c)
					wake_cond(i, false), T[i].hist = mix(T[i].hist, T[cur].hist);
		}
		else
		{
			// which waiter is woken is a free choice
			int w[MAXT], n = 0;
			for (int i = 0; i < nthreads; i++)
				if (T[i].st == T_COND && T[i].wait_obj == c)
					w[n++] = i;
			int pick = 0;
			if (n > 1)
			{
				if (trail_pos < prefix->size())
					pick = (*prefix)[trail_pos];
				if (pick >= n)
					fail_exec("REPLAY DIVERGENCE: recorded choice out of range");
				choice ch{};
				ch.pick = (uint16_t)pick;
				ch.n	= (uint16_t)n;
				trail->push_back(ch);
				trail_pos++;
			}
			if (n)
				wake_cond(w[pick], false), T[w[pick]].hist = mix(T[w[pick]].hist, T[cur].hist);
			T[cur].hist = mix(T[cur].hist, (u64)pick);
		}
	}
	int pthread_cond_signal(pthread_cond_t* c)
	{
		if (!live())
			return 0;
		engine_guard g;
		notify(c, false);
		return 0;
	}
	int pthread_cond_broadcast(pthread_cond_t* c)
	{
		if (!live())
			return 0;
		engine_guard g;
		notify(c, true);
		return 0;
	}

	//------------------------------------------------------------------ once / static guards
	int pthread_once(pthread_once_t* o, void (*fn)(void))
	{
		if (*(volatile int*)o == 2)
			return 0;
		if (!live())
		{
			fn();
			*(volatile int*)o = 2;
			return 0;
		}
		fn();
		*(volatile int*)o = 2;
		return 0;
	}
	// guard object: byte 0 = initialised, byte 1 = in progress
	int mc_guard_acquire(u64* gp) asm("__cxa_guard_acquire");
	int mc_guard_acquire(u64* gp)
	{
		volatile char* b = (volatile char*)gp;
		if (b[0])
		{
			if (live())
			{
				engine_guard g;
				hb_acquire(sync(gp));
			}
			return 0;
		}
		if (!live())
		{
			b[1] = 1;
			return 1;
		}
		engine_guard g;
		while (b[1] && !b[0])
		{
			T[cur].st		= T_ONCE;
			T[cur].wait_obj = gp;
			sync(gp).owner	= 1;
			sched_point(P_BLOCK);
			T[cur].st = T_READY;
		}
		if (b[0])
		{
			hb_acquire(sync(gp));
			return 0;
		}
		b[1]		   = 1;
		sync(gp).owner = 1;
		return 1;
	}
	void mc_guard_release(u64* gp) asm("__cxa_guard_release");
	void mc_guard_release(u64* gp)
	{
		volatile char* b = (volatile char*)gp;
		b[0]			 = 1;
		b[1]			 = 0;
		if (live())
		{
			engine_guard g;
			sync(gp).owner = -1;
			hb_release(sync(gp));
		}
	}
	void mc_guard_abort(u64* gp) asm("__cxa_guard_abort");
	void mc_guard_abort(u64* gp)
	{
		((volatile char*)gp)[1] = 0;
		if (live())
		{
			engine_guard g;
			sync(gp).owner = -1;
		}
	}

	//------------------------------------------------------------------ time
	int clock_gettime(clockid_t id, timespec* t)
	{
		if (cur < 0)
			return (int)syscall(SYS_clock_gettime, id, t);
		int64_t v  = vtime + EPOCH0;
		if (!in_engine)
			T[cur].hist = mix(T[cur].hist, (u64)vtime);
		t->tv_sec  = v / 1000000000ll;
		t->tv_nsec = v % 1000000000ll;
		return 0;
	}
	int gettimeofday(timeval* t, void*)
	{
		timespec ts;
		clock_gettime(CLOCK_REALTIME, &ts);
		t->tv_sec  = ts.tv_sec;
		t->tv_usec = ts.tv_nsec / 1000;
		return 0;
	}
	static void sleep_ns(int64_t d)
	{
		engine_guard g;
		if (d < 0)
			d = 0;
		T[cur].hist = mix(T[cur].hist, 0x51EE9);
		if (!d)
		{
			sched_point(P_YIELD);
			return;
		}
		T[cur].st		= T_SLEEP;
		T[cur].deadline = d > INT64_MAX - vtime ? INT64_MAX : vtime + d;
		sched_point(P_BLOCK);
		T[cur].st		= T_READY;
		T[cur].deadline = -1;
	}
	int nanosleep(const timespec* t, timespec*)
	{
		if (!live())
			return 0;
		sleep_ns(ns(t));
		return 0;
	}
	int clock_nanosleep(clockid_t, int flags, const timespec* t, timespec*)
	{
		if (!live())
			return 0;
		sleep_ns((flags & TIMER_ABSTIME) ? ns(t) - EPOCH0 - vtime : ns(t));
		return 0;
	}
	int usleep(useconds_t u)
	{
		if (!live())
			return 0;
		sleep_ns((int64_t)u * 1000);
		return 0;
	}
	int sched_yield()
	{
		mc_pause();
		return 0;
	}

	//------------------------------------------------------------------ futex (std::atomic::wait)
	static long mc_futex(int* addr, int op, int val, const timespec* to)
	{
		engine_guard g;
		int cmd = op & 0x7f;
		sched_point(P_OP);
		if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
		{
			if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val)
			{
				errno = EAGAIN;
				return -1;
			}
			T[cur].st		 = T_FUTEX;
			T[cur].wait_obj	 = addr;
			T[cur].deadline	 = to ? (cmd == FUTEX_WAIT ? vtime + ns(to) : ns(to) - EPOCH0) : -1;
			T[cur].timed_out = false;
			T[cur].hist		 = mix(mix(T[cur].hist, 0xF07E), oid(addr));
			sched_point(P_BLOCK);
			T[cur].st		= T_READY;
			T[cur].deadline = -1;
			if (T[cur].timed_out)
			{
				errno = ETIMEDOUT;
				return -1;
			}
			return 0;
		}
		if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
		{
			int woken = 0;
			for (int i = 0; i < nthreads && woken < val; i++)
				if (T[i].st == T_FUTEX && T[i].wait_obj == addr)
				{
					wake_cond(i, false);
					T[i].hist = mix(T[i].hist, T[cur].hist);
					woken++;
				}
			return woken;
		}
		fail_exec("unsupported futex operation " + std::to_string(cmd));
	}
	long syscall(long n, ...)
	{
		va_list ap;
		va_start(ap, n);
		long a[6];
		for (int i = 0; i < 6; i++)
			a[i] = va_arg(ap, long);
		va_end(ap);
		if (n == SYS_futex && live())
			return mc_futex((int*)a[0], (int)a[1], (int)a[2], (const timespec*)a[3]);
		long r;
		register long r10 asm("r10") = a[3];
		register long r8 asm("r8")	 = a[4];
		register long r9 asm("r9")	 = a[5];
		asm volatile("syscall"
					 : "=a"(r)
					 : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9)
					 : "rcx", "r11", "memory");
		if (r < 0 && r > -4096)
		{
			errno = (int)-r;
			return -1;
		}
		return r;
	}

	//------------------------------------------------------------------ memory intrinsics (via --wrap)
	void* __real_memcpy(void*, const void*, size_t);
	void* __real_memmove(void*, const void*, size_t);
	void* __real_memset(void*, int, size_t);
	void* __wrap_memcpy(void* d, const void* s, size_t n)
	{
		if (live())
			access(s, n, 0), access(d, n, 1);
		return __real_memcpy(d, s, n);
	}
	void* __wrap_memmove(void* d, const void* s, size_t n)
	{
		if (live())
			access(s, n, 0), access(d, n, 1);
		return __real_memmove(d, s, n);
	}
	void* __wrap_memset(void* d, int c, size_t n)
	{
		if (live())
			access(d, n, 1);
		return __real_memset(d, c, n);
	}

	//------------------------------------------------------------------ tsan ABI
	void __tsan_init()
	{}
	// stack frames are reused: a function's frame is fresh memory. Its region below the current frame is cleared on
	// entry only lazily (same-thread reuse is ordered by program order, and cross-thread sharing of a dead frame is a bug).
	void __tsan_func_entry(void*)
	{}
	void __tsan_func_exit()
	{}
#define RW(n)                                                                                                          \
	void __tsan_read##n(void* p)                                                                                       \
	{                                                                                                                  \
		access(p, n, 0);                                                                                               \
	}                                                                                                                  \
	void __tsan_write##n(void* p)                                                                                      \
	{                                                                                                                  \
		access(p, n, 1);                                                                                               \
	}                                                                                                                  \
	void __tsan_unaligned_read##n(void* p)                                                                             \
	{                                                                                                                  \
		access(p, n, 0);                                                                                               \
	}                                                                                                                  \
	void __tsan_unaligned_write##n(void* p)                                                                            \
	{                                                                                                                  \
		access(p, n, 1);                                                                                               \
	}                                                                                                                  \
	void __tsan_volatile_read##n(void* p)                                                                              \
	{                                                                                                                  \
		access(p, n, 0);                                                                                               \
	}                                                                                                                  \
	void __tsan_volatile_write##n(void* p)                                                                             \
	{                                                                                                                  \
		access(p, n, 1);                                                                                               \
	}
	RW(1)
	RW(2)
	RW(4)
	RW(8)
	RW(16)
	void __tsan_read_range(void* p, size_t n)
	{
		access(p, n, 0);
	}
	void __tsan_write_range(void* p, size_t n)
	{
		access(p, n, 1);
	}
	void __tsan_vptr_update(void** p, void*)
	{
		access(p, 8, 1);
	}
	void __tsan_vptr_read(void** p)
	{
		access(p, 8, 0);
	}

	static bool is_acq(int mo)
	{
		return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
	}
	static bool is_rel(int mo)
	{
		return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
	}
	static void at_load(sync_rec& s, int mo)
	{
		if (is_acq(mo))
			hb_acquire(s);
		else
			T[cur].acq_pending.join(s.vc);
		T[cur].hist = mix(T[cur].hist, s.hist);
	}
	static void at_store(sync_rec& s, int mo, bool rmw)
	{
		T[cur].hist = mix(T[cur].hist, s.hist); // modification order
		if (!rmw)
			s.vc.clear();
		if (is_rel(mo))
			hb_release(s);
		else if (T[cur].has_rel_fence)
			s.vc.join(T[cur].rel_fence);
		s.hist = mix(T[cur].hist, 0xA70);
	}
	static void at_point(volatile void* p, size_t n, uint8_t kind)
	{
		// called in engine
		sched_point(P_OP);
		touch((void*)p, n);
		T[cur].hist = mix(mix(T[cur].hist, kind + 0xA0), oid((void*)p));
		in_engine	= false;
		access(p, n, kind);
		in_engine = true;
	}

	void __tsan_atomic_thread_fence(int mo)
	{
		if (!live())
			return;
		engine_guard g;
		if (is_acq(mo))
			T[cur].vc.join(T[cur].acq_pending);
		if (is_rel(mo))
		{
			T[cur].rel_fence	 = T[cur].vc;
			T[cur].has_rel_fence = true;
			T[cur].vc.c[cur]++;
		}
		sched_point(P_OP);
	}
	void __tsan_atomic_signal_fence(int)
	{}

#define ATOMICS(B, TYPE)                                                                                               \
	TYPE __tsan_atomic##B##_load(const volatile TYPE* a, int mo)                                                       \
	{                                                                                                                  \
		if (!live())                                                                                                   \
			return *a;                                                                                                 \
		engine_guard g;                                                                                                \
		at_point((volatile void*)a, sizeof(TYPE), 2);                                                                  \
		at_load(sync((void*)a), mo);                                                                                   \
		return *a;                                                                                                     \
	}                                                                                                                  \
	void __tsan_atomic##B##_store(volatile TYPE* a, TYPE v, int mo)                                                    \
	{                                                                                                                  \
		if (!live())                                                                                                   \
		{                                                                                                              \
			*a = v;                                                                                                    \
			return;                                                                                                    \
		}                                                                                                              \
		engine_guard g;                                                                                                \
		at_point((volatile void*)a, sizeof(TYPE), 3);                                                                  \
		at_store(sync((void*)a), mo, false);                                                                           \
		*a = v;                                                                                                        \
	}                                                                                                                  \
	static TYPE rmw##B(volatile TYPE* a, int mo, TYPE (*f)(TYPE, TYPE), TYPE v)                                        \
	{                                                                                                                  \
		if (!live())                                                                                                   \
		{                                                                                                              \
			TYPE old = *a;                                                                                             \
			*a		 = f(old, v);                                                                                      \
			return old;                                                                                                \
		}                                                                                                              \
		engine_guard g;                                                                                                \
		at_point((volatile void*)a, sizeof(TYPE), 3);                                                                  \
		sync_rec& s = sync((void*)a);                                                                                  \
		at_load(s, mo);                                                                                                \
		at_store(s, mo, true);                                                                                         \
		TYPE old = *a;                                                                                                 \
		*a		 = f(old, v);                                                                                          \
		return old;                                                                                                    \
	}                                                                                                                  \
	TYPE __tsan_atomic##B##_exchange(volatile TYPE* a, TYPE v, int mo)                                                 \
	{                                                                                                                  \
		return rmw##B(                                                                                                 \
			a,                                                                                                         \
			mo,                                                                                                        \
			[](TYPE, TYPE y) -> TYPE { return y; },                                                                    \
			v);                                                                                                        \
	}                                                                                                                  \
	TYPE __tsan_atomic##B##_fetch_add(volatile TYPE* a, TYPE v, int mo)                                                \
	{                                                                                                                  \
		return rmw##B(                                                                                                 \
			a,                                                                                                         \
			mo,                                                                                                        \
			[](TYPE x, TYPE y) -> TYPE { return (TYPE)(x + y); },                                                      \
			v);                                                                                                        \
	}                                                                                                                  \
	TYPE __tsan_atomic##B##_fetch_sub(volatile TYPE* a, TYPE v, int mo)                                                \
	{                                                                                                                  \
		return rmw##B(                                                                                                 \
			a,                                                                                                         \
			mo,                                                                                                        \
			[](TYPE x, TYPE y) -> TYPE { return (TYPE)(x - y); },                                                      \
			v);                                                                                                        \
	}                                                                                                                  \
	TYPE __tsan_atomic##B##_fetch_and(volatile TYPE* a, TYPE v, int mo)                                                \
	{                                                                                                                  \
		return rmw##B(                                                                                                 \
			a,                                                                                                         \
			mo,                                                                                                        \
			[](TYPE x, TYPE y) -> TYPE { return (TYPE)(x & y); },                                                      \
			v);                                                                                                        \
	}                                                                                                                  \
	TYPE __tsan_atomic##B##_fetch_or(volatile TYPE* a, TYPE v, int mo)                                                 \
	{                                                                                                                  \
		return rmw##B(                                                                                                 \
			a,                                                                                                         \
			mo,                                                                                                        \
			[](TYPE x, TYPE y) -> TYPE { return (TYPE)(x | y); },                                                      \
			v);                                                                                                        \
	}                                                                                                                  \
	TYPE __tsan_atomic##B##_fetch_xor(volatile TYPE* a, TYPE v, int mo)                                                \
	{                                                                                                                  \
		return rmw##B(                                                                                                 \
			a,                                                                                                         \
			mo,                                                                                                        \
			[](TYPE x, TYPE y) -> TYPE { return (TYPE)(x ^ y); },                                                      \
			v);                                                                                                        \
	}                                                                                                                  \
	TYPE __tsan_atomic##B##_fetch_nand(volatile TYPE* a, TYPE v, int mo)                                               \
	{                                                                                                                  \
		return rmw##B(                                                                                                 \
			a,                                                                                                         \
			mo,                                                                                                        \
			[](TYPE x, TYPE y) -> TYPE { return (TYPE) ~(x & y); },                                                    \
			v);                                                                                                        \
	}                                                                                                                  \
	int __tsan_atomic##B##_compare_exchange_strong(volatile TYPE* a, TYPE* c, TYPE v, int mo, int fmo)                 \
	{                                                                                                                  \
		if (!live())                                                                                                   \
		{                                                                                                              \
			if (*a == *c)                                                                                              \
			{                                                                                                          \
				*a = v;                                                                                                \
				return 1;                                                                                              \
			}                                                                                                          \
			*c = *a;                                                                                                   \
			return 0;                                                                                                  \
		}                                                                                                              \
		engine_guard g;                                                                                                \
		at_point((volatile void*)a, sizeof(TYPE), 3);                                                                  \
		sync_rec& s = sync((void*)a);                                                                                  \
		if (*a == *c)                                                                                                  \
		{                                                                                                              \
			at_load(s, mo);                                                                                            \
			at_store(s, mo, true);                                                                                     \
			*a = v;                                                                                                    \
			return 1;                                                                                                  \
		}                                                                                                              \
		at_load(s, fmo);                                                                                               \
		*c = *a;                                                                                                       \
		return 0;                                                                                                      \
	}                                                                                                                  \
	int __tsan_atomic##B##_compare_exchange_weak(volatile TYPE* a, TYPE* c, TYPE v, int mo, int fmo)                   \
	{                                                                                                                  \
		return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo);                                           \
	}                                                                                                                  \
	TYPE __tsan_atomic##B##_compare_exchange_val(volatile TYPE* a, TYPE c, TYPE v, int mo, int fmo)                    \
	{                                                                                                                  \
		TYPE e = c;                                                                                                    \
		__tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo);                                                 \
		return e;                                                                                                      \
	}

	ATOMICS(8, uint8_t)
	ATOMICS(16, uint16_t)
	ATOMICS(32, uint32_t)
	ATOMICS(64, uint64_t)
	ATOMICS(128, unsigned __int128)
}
