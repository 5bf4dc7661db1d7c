// Harness support: case identity, failure reporting, coverage counting, crash / hang capture.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <functional>
#include <sstream>
#include <initializer_list>

namespace vf
{
	struct group_stat
	{
		uint64_t states = 0, transitions = 0, traces = 0, fails = 0;
	};
	struct context
	{
		const char* group = "(start)";
		int64_t arg[8]{};
		int nargs			   = 0;
		const char* text	   = nullptr; // optional free-form description, must outlive the case
		volatile uint64_t tick = 0;
	};
	inline context ctx;
	inline bool thorough	= false;
	inline unsigned shard	= 0, shards = 1;
	inline uint64_t seed	= 1;
	inline std::string only; // replay: only this key is reported
	inline std::map<std::string, group_stat> groups;
	inline group_stat skipped;
	inline group_stat* gs = &skipped;
	inline std::string capped;
	inline uint64_t nfail = 0;
	inline std::vector<std::string> args;
	inline std::set<std::string> outcomes;

	inline std::string key()
	{
		std::string k = ctx.group;
		for (int i = 0; i < ctx.nargs; i++)
			k += (i ? "," : ":") + std::to_string((long long)ctx.arg[i]);
		if (ctx.text)
		{
			k += ctx.nargs ? ";" : ":";
			for (const char* p = ctx.text; *p; p++)
				k += (*p == '\t' || *p == '\n') ? ' ' : *p;
		}
		return k;
	}

	// async-signal-tolerant enough for a dying process: no allocation
	inline void crash_line(const char* what, int sig)
	{
		static char buf[4096];
		int n = snprintf(buf, sizeof(buf), "\nFAIL\t%s", ctx.group);
		for (int i = 0; i < ctx.nargs && n < 3000; i++)
			n += snprintf(buf + n, sizeof(buf) - n, "%s%lld", i ? "," : ":", (long long)ctx.arg[i]);
		if (ctx.text && n < 3000)
		{
			n += snprintf(buf + n, sizeof(buf) - n, "%s", ctx.nargs ? ";" : ":");
			for (const char* p = ctx.text; *p && n < 3500; p++)
				buf[n++] = (*p == '\t' || *p == '\n') ? ' ' : *p;
		}
		n += snprintf(buf + n, sizeof(buf) - n, "\t%s %d\n", what, sig);
		(void)!::write(1, buf, (size_t)n);
	}
	inline void on_signal(int sig)
	{
		crash_line("process died with signal", sig);
		fflush(nullptr);
		_exit(70);
	}
	inline volatile uint64_t last_tick = 0;
	inline volatile int stalled		   = 0;
	inline int stall_limit			   = 12; // * 10 s
	inline void on_alarm(int)
	{
		if (ctx.tick == last_tick)
		{
			stalled = stalled + 1;
			if (stalled >= stall_limit)
			{
				crash_line("no progress (hang) for seconds:", stalled * 10);
				_exit(71);
			}
		}
		else
		{
			last_tick = ctx.tick;
			stalled	  = 0;
		}
	}
	inline void on_terminate()
	{
		crash_line("std::terminate", 0);
		_exit(72);
	}

	inline void init(int argc, char** argv)
	{
		for (int i = 1; i < argc; i++)
		{
			std::string a = argv[i];
			if (a == "--tier" && i + 1 < argc)
				thorough = std::string(argv[++i]) == "thorough";
			else if (a == "--shard" && i + 1 < argc)
				sscanf(argv[++i], "%u/%u", &shard, &shards);
			else if (a == "--seed" && i + 1 < argc)
				seed = strtoull(argv[++i], nullptr, 10);
			else if (a == "--only" && i + 1 < argc)
				only = argv[++i];
			else
				args.push_back(a);
		}
		static char alt[65536];
		stack_t ss{};
		ss.ss_sp   = alt;
		ss.ss_size = sizeof(alt);
		sigaltstack(&ss, nullptr);
		struct sigaction sa
		{};
		sa.sa_handler = on_signal;
		sa.sa_flags	  = SA_ONSTACK;
		for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP })
			sigaction(s, &sa, nullptr);
		sa.sa_handler = on_alarm;
		sa.sa_flags	  = SA_ONSTACK | SA_RESTART;
		sigaction(SIGALRM, &sa, nullptr);
		itimerval tv{ { 10, 0 }, { 10, 0 } };
		setitimer(ITIMER_REAL, &tv, nullptr);
		std::set_terminate(on_terminate);
		setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
	}

	// true if this group should run (replay of one case only runs its group)
	inline bool group(const char* g)
	{
		if (!only.empty() && (only.compare(0, strlen(g), g) != 0 || (only[strlen(g)] != ':' && only[strlen(g)] != 0)))
		{
			ctx.group = "(skipped)";
			ctx.nargs = 0;
			ctx.text  = nullptr;
			gs		  = &skipped;
			return false;
		}
		ctx.group = g;
		ctx.nargs = 0;
		ctx.text  = nullptr;
		gs		  = &groups[g];
		return true;
	}

	template <typename... A>
	inline void at(A... a)
	{
		int n = 0;
		((ctx.arg[n++] = (int64_t)a), ...);
		ctx.nargs = n;
		ctx.tick  = ctx.tick + 1;
	}
	inline void text(const char* t)
	{
		ctx.text = t;
		ctx.tick = ctx.tick + 1;
	}
	inline bool mine(uint64_t i)
	{
		return shards <= 1 || i % shards == shard;
	}
	inline void state(uint64_t n = 1)
	{
		gs->states += n;
	}
	inline void trans(uint64_t n = 1)
	{
		gs->transitions += n;
	}
	inline void trace(uint64_t n = 1)
	{
		gs->traces += n;
	}
	inline void sample(const char* fmt, ...)
	{
		static std::map<std::string, int> cnt;
		if (cnt[ctx.group]++ >= 2)
			return;
		va_list ap;
		va_start(ap, fmt);
		char b[1024];
		vsnprintf(b, sizeof b, fmt, ap);
		va_end(ap);
		for (char* p = b; *p; p++)
			if (*p == '\n' || *p == '\t')
				*p = ' ';
		printf("SAMPLE\t%s: %s\n", ctx.group, b);
	}
	inline void fail(const char* fmt, ...)
	{
		std::string k = key();
		nfail++;
		gs->fails++;
		if (only.empty() ? gs->fails > 4 : k != only)
			return;
		va_list ap;
		va_start(ap, fmt);
		char b[2048];
		vsnprintf(b, sizeof b, fmt, ap);
		va_end(ap);
		for (char* p = b; *p; p++)
			if (*p == '\n' || *p == '\t')
				*p = ' ';
		printf("FAIL\t%s\t%s\n", k.c_str(), b);
		fflush(stdout);
	}
	inline void cap(const char* what)
	{
		capped = what;
	}
	inline int finish()
	{
		group_stat t;
		printf("STAT\t{");
		for (auto& [n, g] : groups)
			t.states += g.states, t.transitions += g.transitions, t.traces += g.traces;
		printf("\"states\":%llu,\"transitions\":%llu,\"traces\":%llu",
			   (unsigned long long)t.states,
			   (unsigned long long)t.transitions,
			   (unsigned long long)t.traces);
		if (!capped.empty())
			printf(",\"capped\":\"%s\"", capped.c_str());
		printf(",\"groups\":{");
		bool first = true;
		for (auto& [n, g] : groups)
		{
			printf("%s\"%s\":{\"states\":%llu,\"transitions\":%llu,\"fails\":%llu}",
				   first ? "" : ",",
				   n.c_str(),
				   (unsigned long long)g.states,
				   (unsigned long long)g.transitions,
				   (unsigned long long)g.fails);
			first = false;
		}
		printf("}}\n");
		fflush(stdout);
		_exit(0);
	}
}

#define VF_CHECK(cond, ...)                                                                                            \
	do                                                                                                                 \
	{                                                                                                                  \
		if (!(cond))                                                                                                   \
			vf::fail(__VA_ARGS__);                                                                                     \
	}                                                                                                                  \
	while (0)
// checks `cond`, reporting its own text
#define VF_REQ(cond)                                                                                                   \
	do                                                                                                                 \
	{                                                                                                                  \
		if (!(cond))                                                                                                   \
			vf::fail("expected: %s (line %d)", #cond, __LINE__);                                                       \
	}                                                                                                                  \
	while (0)
