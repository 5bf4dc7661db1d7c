// D05 tagged_ptr, D06 scope guards, D07 function_view, D08 compressed_pair.
#include "vf.h"
#include "muu/tagged_ptr.h"
#include "muu/scope_guard.h"
#include "muu/function_view.h"
#include "muu/compressed_pair.h"
#include <memory>
#include <string>
#include <array>
#include <utility>
using namespace muu;

// ---------------------------------------------------------------------------------------------------------- D05
namespace
{
#ifndef MUU_TAGGED_PTR_BITS
	#define MUU_TAGGED_PTR_BITS 0
#endif
	constexpr size_t used_bits = MUU_TAGGED_PTR_BITS ? MUU_TAGGED_PTR_BITS : 64;
	constexpr size_t ilog2(size_t v)
	{
		return v <= 1 ? 0 : 1 + ilog2(v / 2);
	}

	enum class te8 : uint8_t
	{
	};
	enum class te16 : int16_t
	{
	};
	enum class te32 : int32_t
	{
	};
	enum class te64 : uint64_t
	{
	};
	struct tpod1
	{
		uint8_t a;
	};
	struct tpod2
	{
		uint8_t a, b;
	};

	template <size_t A>
	struct alignas(A) obj
	{
		int v;
	};

	// canonical addresses representable with the configured number of significant bits
	std::vector<uint64_t> addresses(size_t align)
	{
		std::set<uint64_t> s{ 0 };
		const size_t lo = ilog2(align);
		for (size_t b = lo; b < used_bits; b++)
			for (uint64_t base : { uint64_t{ 1 } << b, (uint64_t{ 1 } << b) - align, (uint64_t{ 1 } << b) | align, ~uint64_t{} << b })
			{
				uint64_t v = base & ~(uint64_t{ align } - 1);
				if (used_bits < 64) // canonical form: sign extended
				{
					const unsigned k = 64 - used_bits;
					v				 = (uint64_t)((int64_t)(v << k) >> k);
				}
				s.insert(v);
			}
		return std::vector<uint64_t>(s.begin(), s.end());
	}

	template <size_t A>
	struct tp_model
	{
		using T						   = obj<A>;
		using P						   = tagged_ptr<T, A>;
		static constexpr size_t tbits  = ilog2(A) + (64 - used_bits);
		static constexpr uint64_t mask = tbits >= 64 ? ~uint64_t{} : (uint64_t{ 1 } << tbits) - 1;

		static T* raw(uint64_t a)
		{
			return reinterpret_cast<T*>(a);
		}
		static void same(const P& p, uint64_t addr, uint64_t tag, const char* after)
		{
			vf::trans();
			const T* r = raw(addr);
			VF_CHECK((uint64_t)p.ptr() == addr && (uint64_t)p.get() == addr && (uint64_t)(T*)p == addr, "%s: the pointer is %llx instead of %llx (tag %llx)", after,
					 (unsigned long long)(uintptr_t)p.ptr(), (unsigned long long)addr, (unsigned long long)tag);
			VF_CHECK((uint64_t)p.tag() == tag, "%s: the tag is %llx instead of %llx (pointer %llx)", after, (unsigned long long)p.tag(),
					 (unsigned long long)tag, (unsigned long long)addr);
			VF_CHECK(p.template tag<uint64_t>() == tag && (uint64_t)p.template tag<te64>() == tag, "%s: the tag as another type", after);
			VF_CHECK(static_cast<bool>(p) == (addr != 0), "%s: operator bool (pointer %llx, tag %llx)", after, (unsigned long long)addr, (unsigned long long)tag);
			VF_CHECK((p == r) && (r == p) && !(p != r) && !(r != p), "%s: comparison with the raw pointer", after);
			const T* other = raw(addr ^ A);
			VF_CHECK(!(p == other) && !(other == p) && (p != other) && (other != p), "%s: comparison with another raw pointer", after);
			for (size_t b = 0; b < tbits; b++)
				VF_CHECK(p.tag_bit(b) == !!((tag >> b) & 1), "%s: tag bit %zu", after, b);
		}
		static void ops(const P& from, uint64_t addr, uint64_t tag, uint64_t addr2, uint64_t tag2)
		{
			using tag_type = typename P::tag_type;
			{
				P p = from;
				P& r = p.ptr(raw(addr2));
				VF_CHECK(&r == &p, "ptr() returns another object");
				same(p, addr2, tag, "ptr(value)");
			}
			{
				P p = from;
				p	= raw(addr2);
				same(p, addr2, tag, "= value");
			}
			{
				P p = from;
				p.tag((tag_type)tag2);
				same(p, addr, tag2, "tag(value)");
				p.tag((te64)tag);
				same(p, addr, tag, "tag(enum)");
				p.tag((uint64_t)tag2);
				same(p, addr, tag2, "tag(uint64)");
			}
			{
				P p = from;
				p.clear_ptr();
				same(p, 0, tag, "clear_ptr()");
			}
			{
				P p = from;
				p.clear_tag();
				same(p, addr, 0, "clear_tag()");
			}
			{
				P p = from;
				p.reset();
				same(p, 0, 0, "reset()");
				p.reset(raw(addr2));
				same(p, addr2, 0, "reset(value)");
				p.reset(raw(addr), (tag_type)tag2);
				same(p, addr, tag2, "reset(value, tag)");
				p.reset(raw(addr2));
				same(p, addr2, 0, "reset(value) after a tag");
			}
			{
				P p = from, q{ raw(addr2), (tag_type)tag2 };
				VF_CHECK((p == q) == (addr == addr2 && tag == tag2) && (p != q) == !(p == q), "comparison of tagged pointers");
				p = q;
				same(p, addr2, tag2, "copy assignment");
				VF_CHECK(p == q, "copies are unequal");
			}
		}
		static void run()
		{
			static_assert(P::tag_bit_count == tbits && (uint64_t)P::max_tag == mask && P::alignment == A);
			static_assert(sizeof(P) == sizeof(void*) && sizeof(typename P::tag_type) * 8 >= tbits);
			static_assert(sizeof(typename P::tag_type) == 1 || sizeof(typename P::tag_type) * 4 < tbits);
			static_assert(std::is_trivially_copyable_v<P>);
			static_assert(std::is_same_v<decltype(tagged_ptr{ (T*)nullptr }), tagged_ptr<T>>);
			const auto addrs = addresses(A);
			std::vector<uint64_t> tags;
			const size_t full = vf::thorough ? 10 : 7;
			for (uint64_t t = 0; t < (uint64_t{ 1 } << (tbits < full ? tbits : full)); t++)
				tags.push_back(t);
			for (size_t b = full; b < tbits; b++)
			{
				tags.push_back(uint64_t{ 1 } << b);
				tags.push_back(mask & ~(uint64_t{ 1 } << b));
				tags.push_back((uint64_t{ 1 } << b) - 1);
				tags.push_back(mask & (~uint64_t{} << b));
			}
			tags.push_back(mask);
			size_t ai = 0;
			for (auto a : addrs)
			{
				if (!vf::mine(ai++))
					continue;
				VF_CHECK(P::can_store_ptr(raw(a)), "can_store_ptr refuses a canonical aligned address");
				{
					P p{ raw(a) };
					same(p, a, 0, "construction");
					VF_CHECK((p == P{ raw(a), (uint64_t)0 }), "construction without and with a zero tag differ");
					VF_CHECK(std::pointer_traits<P>::to_address(p) == raw(a), "to_address");
				}
				for (size_t ti = 0; ti < tags.size(); ti++)
				{
					const auto t = tags[ti];
					vf::at((int64_t)A, (int64_t)a, (int64_t)t);
					vf::state();
					P p{ raw(a), t };
					same(p, a, t, "construction with tag");
					P e{ raw(a), (te64)t };
					VF_CHECK(e == p, "construction with an enum tag");
					// partners: the nearest in the lists and the extremes
					for (uint64_t a2 : { addrs[0], addrs[1], addrs[ai % addrs.size()], addrs.back() })
						for (uint64_t t2 : { uint64_t{ 0 }, mask, tags[(ti + 1) % tags.size()], ~t & mask })
							ops(p, a, t, a2, t2);
					for (size_t b = 0; b < tbits; b++)
						for (int s = 0; s < 2; s++)
						{
							P q = p;
							q.tag_bit(b, s);
							same(q, a, s ? t | (uint64_t{ 1 } << b) : t & ~(uint64_t{ 1 } << b), "tag_bit(index, value)");
						}
				}
				// narrow and signed tags, POD tags
				for (int i = 0; i < 65536; i += (i < 600 || i > 65000) ? 1 : 251)
				{
					vf::at((int64_t)A, (int64_t)a, i);
					narrow<uint8_t>(a, (uint8_t)i);
					narrow<int8_t>(a, (int8_t)i);
					narrow<te8>(a, (te8)i);
					narrow<uint16_t>(a, (uint16_t)i);
					narrow<int16_t>(a, (int16_t)i);
					narrow<te16>(a, (te16)i);
					narrow<int32_t>(a, (int32_t)(int16_t)i);
					narrow<te32>(a, (te32)(int16_t)i);
					narrow<int64_t>(a, (int64_t)(int16_t)i);
					if constexpr (tbits >= 8)
					{
						static_assert(P::can_store_tag(tpod1{}));
						pod(a, tpod1{ (uint8_t)i });
					}
					else
						static_assert(!P::can_store_tag(tpod1{}));
					if constexpr (tbits >= 16)
					{
						static_assert(P::can_store_tag(tpod2{}));
						pod(a, tpod2{ (uint8_t)i, (uint8_t)(i >> 8) });
					}
					else
						static_assert(!P::can_store_tag(tpod2{}));
				}
			}
			// unusable addresses
			if (vf::mine(1))
			{
				for (auto a : addrs)
				{
					for (size_t off = 1; off < A; off *= 2)
						VF_CHECK(!P::can_store_ptr(raw(a + off)), "can_store_ptr accepts the under-aligned address %llx", (unsigned long long)(a + off));
					if constexpr (used_bits < 64)
						for (size_t b = used_bits; b < 64; b++)
							VF_CHECK(!P::can_store_ptr(raw(a ^ (uint64_t{ 1 } << b))), "can_store_ptr accepts the non-canonical address %llx",
									 (unsigned long long)(a ^ (uint64_t{ 1 } << b)));
				}
				P d;
				same(d, 0, 0, "default construction");
				P n{ nullptr };
				same(n, 0, 0, "null construction");
				T o{ 42 };
				P p{ &o, (uint64_t)mask };
				VF_CHECK(&*p == &o && p->v == 42 && (*p).v == 42, "dereferencing");
				p->v = 7;
				VF_CHECK(o.v == 7, "writing through a tagged_ptr");
				VF_CHECK(std::pointer_traits<P>::pointer_to(o).ptr() == &o, "pointer_to");
				constexpr P cn{};
				static_assert(!cn && cn == P{});
			}
		}
		template <typename Tag>
		static void narrow(uint64_t a, Tag t)
		{
			vf::trans();
			uint64_t u;
			bool fits;
			if constexpr (std::is_enum_v<Tag>)
			{
				u	 = (uint64_t)(std::underlying_type_t<Tag>)t;
				fits = sizeof(Tag) * 8 <= tbits || !((uint64_t)(std::make_unsigned_t<std::underlying_type_t<Tag>>)t & ~mask);
			}
			else
			{
				u	 = (uint64_t)t;
				fits = sizeof(Tag) * 8 <= tbits || !((uint64_t)(std::make_unsigned_t<Tag>)t & ~mask);
			}
			VF_CHECK(P::can_store_tag(t) == fits, "can_store_tag(%lld of %zu bytes) with %zu tag bits", (long long)u, sizeof(Tag), tbits);
#ifndef NDEBUG
			if (!fits)
				return; // asserted by design
#endif
			P p{ raw(a), t };
			// the low bits of the tag in two's complement
			const uint64_t low = sizeof(Tag) * 8 <= tbits && (int64_t)u >= 0 ? u : u & mask;
			VF_CHECK((uint64_t)p.ptr() == a, "a tag of %zu bytes with value %lld damages the pointer %llx", sizeof(Tag), (long long)u, (unsigned long long)a);
			constexpr uint64_t tmask = sizeof(Tag) >= 8 ? ~uint64_t{} : (uint64_t{ 1 } << (sizeof(Tag) * 8)) - 1;
			VF_CHECK(((uint64_t)p.tag() & tmask) == (low & tmask), "a tag of %zu bytes with value %lld becomes %llx", sizeof(Tag), (long long)u,
					 (unsigned long long)p.tag());
			if constexpr (sizeof(Tag) * 8 >= tbits)
			{
				if (fits)
					VF_CHECK(p.template tag<Tag>() == t || ((uint64_t)p.template tag<Tag>() & mask) == (u & mask), "the tag does not read back");
			}
			P q{ raw(a), (uint64_t)mask };
			q.tag(t);
			VF_CHECK(q == p, "constructing with and setting a tag of %zu bytes with value %lld differ", sizeof(Tag), (long long)u);
			q.reset(raw(a), t);
			VF_CHECK(q == p, "constructing and resetting with a tag differ");
		}
		template <typename Pod>
		static void pod(uint64_t a, const Pod& t)
		{
			vf::trans();
			P p{ raw(a), t };
			VF_CHECK((uint64_t)p.ptr() == a, "a POD tag damages the pointer");
			const Pod r = p.template tag<Pod>();
			VF_CHECK(!memcmp(&r, &t, sizeof(Pod)), "a POD tag does not read back");
			P q{ raw(a), (uint64_t)mask };
			q.tag(t);
			VF_CHECK(q == p && (uint64_t)q.ptr() == a, "setting a POD tag leaves other bits of the old tag, or damages the pointer");
			q.ptr(raw(a ? 0 : A));
			const Pod s = q.template tag<Pod>();
			VF_CHECK(!memcmp(&s, &t, sizeof(Pod)), "changing the pointer damages a POD tag");
		}
	};

	int fn_add(int a, int b)
	{
		return a * 10 + b;
	}
	template <typename Char> // a template: tagged_ptr<char> is ill-formed without spare bits
	void unaligned([[maybe_unused]] Char* buf)
	{
		if constexpr (sizeof(Char) && used_bits < 64)
			for (unsigned t = 0; t < 128; t++)
			{
				tagged_ptr<Char> p{ buf + t % 64, t };
				VF_CHECK(p.ptr() == buf + t % 64 && p.tag() == t, "pointer to char");
				tagged_ptr<std::conditional_t<sizeof(Char) == 1, int(int, int), Char>> f{ fn_add, t };
				VF_CHECK(f.ptr() == &fn_add && f.tag() == t && f(3, 4) == 34 && f == &fn_add, "pointer to function");
			}
	}
	void tagged()
	{
		if (vf::group("tagged"))
		{
			if constexpr (used_bits < 64)
			{
				tp_model<4>::run();
				tp_model<8>::run();
				tp_model<64>::run();
			}
			else
			{
				tp_model<4>::run();
				tp_model<8>::run();
				tp_model<16>::run();
				tp_model<256>::run();
				tp_model<4096>::run();
				tp_model<65536>::run();
			}
		}
		if (vf::group("tagged_void") && vf::mine(2))
		{
			alignas(64) static char buf[64];
			for (unsigned t = 0; t < 64; t++)
			{
				vf::at(t);
				vf::state();
				tagged_ptr<void, 64> p{ buf, t };
				VF_CHECK(p.ptr() == buf && p.tag() == t && p, "pointer to void");
				tagged_ptr<const void, 64> c{ buf, t };
				VF_CHECK(c.ptr() == buf && c.tag() == t, "pointer to const void");
			}
			unaligned<char>(buf);
			std::string s = "x";
			tagged_ptr ps{ &s, 1u };
			static_assert(std::is_same_v<decltype(ps), tagged_ptr<std::string>>);
			VF_CHECK(ps->size() == 1 && *ps == "x", "pointer to a class");
			static_assert(std::is_same_v<std::pointer_traits<tagged_ptr<int>>::rebind<float>, tagged_ptr<float>>);
		}
	}
}

// ---------------------------------------------------------------------------------------------------------- D06
namespace
{
	std::vector<int>* glog; // sequence of invoked levels
	int live_callables = 0;

	struct level_spec
	{
		int kind, callable, dismiss;
	};
	level_spec plan[4];
	int depth_max, throw_at, catch_at; // throw_at: level after whose guard creation an exception is thrown (-1 none)
	void (*dismissers[4])();
	void* guards[4];
	bool caught[4];

	struct boom
	{};

	template <int L>
	struct empty_callable
	{
		void operator()() const noexcept
		{
			glog->push_back(L);
		}
	};
	struct stateful
	{
		int level;
		explicit stateful(int l) : level(l)
		{
			live_callables++;
		}
		stateful(const stateful& o) noexcept : level(o.level)
		{
			live_callables++;
		}
		stateful(stateful&& o) noexcept : level(o.level)
		{
			o.level = -100;
			live_callables++;
		}
		~stateful()
		{
			live_callables--;
		}
		void operator()() noexcept
		{
			glog->push_back(level);
		}
	};
	struct swallower // raises and swallows an exception of its own
	{
		int level;
		void operator()() const noexcept
		{
			try
			{
				throw 1;
			}
			catch (int)
			{
			}
			glog->push_back(level);
		}
	};
	template <int L>
	void free_fn() noexcept
	{
		glog->push_back(L);
	}

	template <int L>
	void body();

	template <int L, typename G>
	void with_guard(G& g)
	{
		VF_CHECK(!g.dismissed(), "a new guard is dismissed");
		guards[L]	   = &g;
		dismissers[L] = [] {
			static_cast<G*>(guards[L])->dismiss();
			VF_CHECK(static_cast<G*>(guards[L])->dismissed(), "dismissed() after dismiss()");
		};
		if (plan[L].dismiss == 1)
			dismissers[L]();
		if (throw_at == L)
		{
			for (int i = 0; i <= L; i++)
				if (plan[i].dismiss == 2)
					dismissers[i]();
			throw boom{};
		}
		if (L + 1 < depth_max)
		{
			if (catch_at == L)
			{
				try
				{
					body<L + 1>();
				}
				catch (boom&)
				{
					caught[L] = true;
				}
			}
			else
				body<L + 1>();
		}
		else
			for (int i = 0; i <= L; i++)
				if (plan[i].dismiss == 2)
					dismissers[i]();
	}

	template <int L, template <typename> typename G>
	void with_kind()
	{
		switch (plan[L].callable)
		{
			case 0:
			{
				G g{ empty_callable<L>{} };
				with_guard<L>(g);
				break;
			}
			case 1:
			{
				G g{ stateful{ L } };
				with_guard<L>(g);
				break;
			}
			case 2:
			{
				stateful s{ L };
				G g{ s };
				const int live = live_callables;
				with_guard<L>(g);
				VF_CHECK(live_callables == live && s.level == L, "a guard of an lvalue");
				break;
			}
			case 3:
			{
				G g{ &free_fn<L> };
				with_guard<L>(g);
				break;
			}
			case 4:
			{
				int l = L;
				G g{ [&l]() noexcept { glog->push_back(l); } };
				l = L + 10; // captured by reference
				with_guard<L>(g);
				break;
			}
			case 5:
			{
				G g{ swallower{ L } };
				with_guard<L>(g);
				break;
			}
			case 6:
			{
				G g{ free_fn<L> };
				with_guard<L>(g);
				break;
			}
		}
	}

	template <int L>
	void body()
	{
		if constexpr (L < 4)
			switch (plan[L].kind)
			{
				case 0: with_kind<L, scope_guard>(); break;
				case 1: with_kind<L, scope_fail>(); break;
				case 2: with_kind<L, scope_success>(); break;
			}
	}

	void expect_run()
	{
		std::vector<int> want;
		bool flying = throw_at >= 0; // propagating out of level throw_at
		for (int l = (throw_at >= 0 ? throw_at : depth_max - 1); l >= 0; l--)
		{
			if (flying && catch_at == l && l < throw_at)
				flying = false; // caught inside level l, before its guard ends
			const auto& p = plan[l];
			const bool dismissed = p.dismiss != 0;
			const bool run = !dismissed && (p.kind == 0 || (p.kind == 1 && flying) || (p.kind == 2 && !flying));
			if (run)
				want.push_back(p.callable == 4 ? l + 10 : l);
		}
		std::vector<int> log;
		glog = &log;
		for (auto& c : caught)
			c = false;
		const int live = live_callables;
		bool out	   = false;
		try
		{
			body<0>();
		}
		catch (boom&)
		{
			out = true;
		}
		VF_CHECK(out == (flying), "the exception %s the outermost scope", out ? "reaches" : "does not reach");
		VF_CHECK(live_callables == live, "%d callables leaked", live_callables - live);
		vf::trans();
		if (log != want)
		{
			std::string a, b;
			for (int i : log)
				a += std::to_string(i) + " ";
			for (int i : want)
				b += std::to_string(i) + " ";
			vf::fail("guards ran: [%s] instead of [%s]", a.c_str(), b.c_str());
		}
	}

	// runs f while n exceptions are in flight (the code under test is called from destructors during unwinding)
	template <typename F>
	void ambient(int n, F f)
	{
		if (!n)
		{
			f();
			return;
		}
		struct D
		{
			int n;
			F& f;
			~D()
			{
				ambient(n - 1, [this] { f(); });
			}
		};
		if constexpr (true)
		{
			try
			{
				D d{ n, f };
				throw 5;
			}
			catch (int)
			{
			}
		}
	}
	void run_ambient(int n)
	{
		std::function<void(int)> rec;
		struct D
		{
			std::function<void(int)>& rec;
			int n;
			~D()
			{
				rec(n);
			}
		};
		rec = [&](int k) {
			if (!k)
				return expect_run();
			try
			{
				D d{ rec, k - 1 };
				throw 5;
			}
			catch (int)
			{
			}
		};
		rec(n);
	}

	void guards_all()
	{
		if (!vf::group("guards"))
			return;
		uint64_t idx	= 0;
		const int dmax = 3;
		const int choices = 3 * 7 * 3;
		for (depth_max = 1; depth_max <= dmax; depth_max++)
		{
			int total = 1;
			for (int i = 0; i < depth_max; i++)
				total *= choices;
			for (int code = 0; code < total; code++)
			{
				if (!vf::mine(code))
					continue;
				int c = code;
				for (int i = 0; i < depth_max; i++)
				{
					int k	= c % choices;
					c /= choices;
					plan[i] = { k % 3, k / 3 % 7, k / 21 };
				}
				for (throw_at = -1; throw_at < depth_max; throw_at++)
					for (catch_at = -1; catch_at < (throw_at < 0 ? 0 : throw_at); catch_at++)
						for (int amb = 0; amb < (vf::thorough ? 4 : 3); amb++)
						{
							vf::at(depth_max, code, throw_at, catch_at, amb);
							vf::state();
							run_ambient(amb);
						}
				idx++;
			}
		}
	}

	static_assert(!std::is_copy_assignable_v<scope_guard<stateful>> && !std::is_copy_assignable_v<scope_success<stateful>>);
}

// ---------------------------------------------------------------------------------------------------------- D07
namespace
{
	int f_plain(int x)
	{
		return 1000 + x;
	}
	int f_noexcept(int x) noexcept
	{
		return 2000 + x;
	}
	long f_long(long x)
	{
		return 3000 + x;
	}
	struct f_state
	{
		int base;
		int calls = 0;
		int operator()(int x)
		{
			calls++;
			return base + x;
		}
		int operator()(int x) const
		{
			return base + 500 + x;
		}
	};
	struct f_empty
	{
		int operator()(int x) &
		{
			return 4000 + x;
		}
		int operator()(int x) const&
		{
			return 5000 + x;
		}
	};
	struct f_empty_rv
	{
		int operator()(int x) const
		{
			return 6000 + x;
		}
	};
	union f_union
	{
		int i;
		int operator()(int x) const
		{
			return 7000 + x + i;
		}
	};
	struct convertible_int
	{
		int v;
		operator int() const
		{
			return v;
		}
	};

	struct tracker
	{
		int v;
		static inline int copies = 0, moves = 0;
		explicit tracker(int x) : v(x)
		{}
		tracker(const tracker& o) : v(o.v)
		{
			copies++;
		}
		tracker(tracker&& o) noexcept : v(o.v)
		{
			o.v = -1;
			moves++;
		}
	};

	constexpr int n_callables = 14;
	struct f_pool
	{
		f_state s1{ 10 }, s2{ 20 };
		const f_state cs{ 30 };
		f_empty e;
		const f_empty ce{};
		f_empty_rv er;
		f_union u{ 5 };
		int cap = 100;
		int (*ptr)(int) = &f_plain;
		std::function<int(int)> fun = [](int x) { return 8000 + x; };
		std::function<int(int)> cap_lambda;

		template <typename V>
		void bind(V& v, int k)
		{
			static auto lam	 = [](int x) { return 9000 + x; };
			static auto conv = [](int x) { return convertible_int{ 9500 + x }; };
			switch (k)
			{
				case 0: v = V{ f_plain }; break;
				case 1: v = V{ &f_noexcept }; break;
				case 2: v = V{ f_long }; break;
				case 3: v = V{ s1 }; break;
				case 4: v = V{ s2 }; break;
				case 5: v = V{ cs }; break;
				case 6: v = V{ e }; break;
				case 7: v = V{ ce }; break;
				case 8: v = V{ er }; break;
				case 9: v = V{ u }; break;
				case 10: v = V{ ptr }; break;
				case 11: v = V{ fun }; break;
				case 12: v = V{ lam }; break;
				case 13: v = V{ conv }; break;
			}
		}
		int want(int k, int x)
		{
			switch (k)
			{
				case 0: return 1000 + x;
				case 1: return 2000 + x;
				case 2: return 3000 + x;
				case 3: return s1.base + x;
				case 4: return s2.base + x;
				case 5: return 530 + x;
				case 6: return 4000 + x;
				case 7: return 5000 + x;
				case 8: return 6000 + x;
				case 9: return 7005 + x;
				case 10: return 1000 + x;
				case 11: return 8000 + x;
				case 12: return 9000 + x;
				default: return 9500 + x;
			}
		}
	};

	template <typename V>
	void views(const char* name)
	{
		if (!vf::group(name))
			return;
		// two views, operations: bind i to k (2 x 14), copy i -> j (2), copy-construct i then destroy, move i -> j (2), null i (2)
		const int nops = 2 * n_callables + 2 + 2 + 2 + 2;
		const int len  = vf::thorough ? 4 : 3;
		uint64_t total = 1;
		for (int i = 0; i < len; i++)
			total *= nops;
		for (uint64_t code = 0; code < total; code++)
		{
			if (!vf::mine(code))
				continue;
			vf::at((int64_t)code);
			vf::state();
			f_pool pool;
			V v[2];
			int m[2] = { -1, -1 };
			uint64_t c = code;
			int expected_calls = 0;
			for (int i = 0; i < len; i++)
			{
				int op = c % nops;
				c /= nops;
				if (op < 2 * n_callables)
				{
					pool.bind(v[op & 1], op >> 1);
					m[op & 1] = op >> 1;
				}
				else
				{
					op -= 2 * n_callables;
					const int s = op & 1, d = !s;
					switch (op >> 1)
					{
						case 0:
							v[d] = v[s]; // non-const copy assignment
							m[d] = m[s];
							break;
						case 1:
						{
							V t{ v[s] }; // copy construction from a non-const view
							v[s] = V{};
							v[d] = std::as_const(t);
							m[d] = m[s];
							m[s] = -1;
							break;
						}
						case 2:
						{
							V t = std::move(v[s]);
							v[s] = std::move(v[d]);
							v[d] = V{ std::move(t) };
							std::swap(m[s], m[d]);
							break;
						}
						case 3:
							v[s] = V{};
							m[s] = -1;
							break;
					}
				}
				for (int j = 0; j < 2; j++)
				{
					vf::trans();
					VF_CHECK(static_cast<bool>(v[j]) == (m[j] >= 0), "operator bool of view %d", j);
					if (m[j] >= 0 && v[j])
					{
						const int r = std::as_const(v[j])(7);
						VF_CHECK(r == pool.want(m[j], 7), "view %d of callable %d returns %d instead of %d", j, m[j], r, pool.want(m[j], 7));
						expected_calls += m[j] == 3 || m[j] == 4;
					}
				}
				VF_CHECK(pool.s1.calls + pool.s2.calls == expected_calls, "a viewed object is not the one that runs");
				pool.s1.base++; // views see later changes of what they view
			}
		}
	}

	struct members
	{
		int base = 60;
	};
	int ov(int)
	{
		return 1;
	}

	void views_misc()
	{
		if (!vf::group("view_args") || !vf::mine(0))
			return;
		int step = 0;
		auto chk = [&](bool ok, const char* what) {
			vf::at(step++);
			vf::state();
			vf::trans();
			if (!ok)
				vf::fail("%s", what);
		};
		// argument forwarding
		{
			int local = 1;
			auto inc  = [](int& x) { x++; };
			function_view<void(int&)> v{ inc };
			v(local);
			chk(local == 2, "lvalue reference argument");
			auto addr = [&](const int& x) { return &x; };
			function_view<const int*(const int&)> va{ addr };
			chk(va(local) == &local, "const reference argument");
			auto take = [](std::unique_ptr<int> p) { return *p; };
			function_view<int(std::unique_ptr<int>)> vu{ take };
			chk(vu(std::make_unique<int>(9)) == 9, "move-only argument by value");
			auto rv = [](std::string&& s) { return std::string(std::move(s)); };
			function_view<std::string(std::string &&)> vr{ rv };
			std::string src = "a long enough string to be on the heap";
			chk(vr(std::move(src)).size() == 38 && src.empty(), "rvalue reference argument");
			tracker::copies = tracker::moves = 0;
			auto byval = [](tracker t) { return t.v; };
			function_view<int(tracker)> vt{ byval };
			tracker t{ 3 };
			chk(vt(t) == 3 && t.v == 3 && tracker::copies == 1, "argument by value is copied exactly once");
			tracker::copies = tracker::moves = 0;
			chk(vt(tracker{ 4 }) == 4 && tracker::copies == 0, "temporary argument is not copied");
			auto three = [](int a, const std::string& b, double c) { return a * 100.0 + (double)b.size() * 10 + c; };
			function_view<double(int, const std::string&, double)> v3{ three };
			chk(v3(1, "xx", 3.0) == 123.0, "several arguments keep their order");
			function_view<int()> v0{ [] { return 77; } };
			chk(v0() == 77, "no arguments");
		}
		// return values
		{
			int local = 5;
			auto ref  = [&]() -> int& { return local; };
			function_view<int&()> v{ ref };
			chk(&v() == &local, "reference return");
			static_assert(std::is_same_v<decltype(v()), int&>);
			auto up = [] { return std::make_unique<int>(8); };
			function_view<std::unique_ptr<int>()> vu{ up };
			chk(*vu() == 8, "move-only return");
			int hits  = 0;
			auto drop = [&](int x) {
				hits += x;
				return 5;
			};
			function_view<void(int)> vd{ drop };
			vd(3);
			chk(hits == 3, "discarded return value");
			function_view<void(int)> vdrop{ f_plain };
			vdrop(1);
			function_view<double(int)> vc{ f_plain };
			chk(vc(1) == 1001.0, "converted return value");
			struct base
			{
				int x = 1;
			};
			struct derived : base
			{
				int y = 2;
			};
			static derived dd;
			auto pd = [] { return &dd; };
			function_view<base*()> vb{ pd };
			chk(vb() == &dd, "pointer conversion of the return value");
		}
		// exceptions pass through, noexcept signatures
		{
			auto th = [](int x) -> int {
				if (x)
					throw boom{};
				return 2;
			};
			function_view<int(int)> v{ th };
			bool got = false;
			try
			{
				(void)v(1);
			}
			catch (boom&)
			{
				got = true;
			}
			chk(got && v(0) == 2, "exceptions pass through a view");
			function_view<int(int) noexcept> vn{ f_noexcept };
			static_assert(noexcept(vn(1)) && !noexcept(v(1)));
			chk(vn(1) == 2001, "noexcept view");
			function_view<int(int)> w{ vn };
			chk(w(2) == 2002, "view of a noexcept view");
		}
		// overload resolution on the constness of what is viewed
		{
			f_state s{ 1 };
			const f_state cs{ 1 };
			function_view<int(int)> a{ s }, b{ cs };
			chk(a(0) == 1 && b(0) == 501 && s.calls == 1, "const and non-const targets");
			f_empty e;
			const f_empty ce{};
			function_view<int(int)> c{ e }, d{ ce };
			chk(c(0) == 4000 && d(0) == 5000, "const and non-const empty targets");
		}
		// deduction
		{
			static_assert(std::is_same_v<decltype(function_view{ f_plain }), function_view<int(int)>>);
			static_assert(std::is_same_v<decltype(function_view{ f_noexcept }), function_view<int(int) noexcept>>);
			auto lam = [](float, char) -> long { return 0; };
			static_assert(std::is_same_v<decltype(function_view{ lam }), function_view<long(float, char)>>);
			int k	   = 0;
			auto lamc = [&k](float) -> char { return (char)k; };
			static_assert(std::is_same_v<decltype(function_view{ lamc }), function_view<char(float)>>);
			function_view v{ f_plain };
			chk(v(1) == 1001, "deduced view");
			static_assert(std::is_trivially_copyable_v<function_view<int(int)>>);
		}
		// temporaries as call arguments
		{
			auto call = [](function_view<int(int)> v) { return v(3); };
			int b	  = 40;
			chk(call([&](int x) { return b + x; }) == 43 && call(f_plain) == 1003 && call([](int x) { return -x; }) == -3, "views as parameters");
		}
	}
}

// ---------------------------------------------------------------------------------------------------------- D08
namespace
{
	struct E0
	{
		bool operator==(const E0&) const
		{
			return true;
		}
	};
	struct E1
	{};
	struct EF final
	{};
	struct Eder : E1
	{
	};
	template <typename A, typename B>
	constexpr size_t psize = sizeof(compressed_pair<A, B>);
	static_assert(psize<E0, int> == sizeof(int) && psize<int, E0> == sizeof(int) && psize<E0, E1> == 1);
	static_assert(psize<E0, std::unique_ptr<int>> == sizeof(void*) && psize<std::unique_ptr<int>, E0> == sizeof(void*));
	static_assert(psize<EF, int> <= 2 * sizeof(int) && psize<int, int> == 2 * sizeof(int));

	template <typename T>
	struct val
	{
		static T make(int i)
		{
			return T(i);
		}
		static int read(const T& t)
		{
			return (int)t;
		}
	};
	template <>
	struct val<std::string>
	{
		static std::string make(int i)
		{
			return std::string(30, 'a') + std::to_string(i);
		}
		static int read(const std::string& s)
		{
			return s.size() < 31 ? -1 : std::stoi(s.substr(30));
		}
	};
	template <>
	struct val<std::unique_ptr<int>>
	{
		static std::unique_ptr<int> make(int i)
		{
			return std::make_unique<int>(i);
		}
		static int read(const std::unique_ptr<int>& p)
		{
			return p ? *p : -1;
		}
	};
	template <typename T>
	struct eval_
	{
		static T make(int)
		{
			return T{};
		}
		static int read(const T&)
		{
			return -2;
		}
	};
	template <>
	struct val<E0> : eval_<E0>
	{};
	template <>
	struct val<E1> : eval_<E1>
	{};
	template <>
	struct val<EF> : eval_<EF>
	{};

	template <typename A, typename B>
	void pairs(const char* what)
	{
		vf::text(what);
		using P			   = compressed_pair<A, B>;
		constexpr bool ea  = std::is_empty_v<A>, eb = std::is_empty_v<B>;
		constexpr bool cpy = std::is_copy_constructible_v<A> && std::is_copy_constructible_v<B>;
		static_assert(std::is_copy_constructible_v<P> == cpy || !cpy);
		static_assert(std::tuple_size<P>::value == 2 && std::is_same_v<std::tuple_element_t<0, P>, A> && std::is_same_v<std::tuple_element_t<1, P>, B>);
		static_assert(sizeof(P) <= sizeof(std::pair<A, B>));
		P p[2]		= { P{ val<A>::make(1), val<B>::make(2) }, P{ val<A>::make(3), val<B>::make(4) } };
		auto show	= [&](const P& q, int a, int b, const char* op) {
			  vf::trans();
			  VF_CHECK(ea || val<A>::read(q.first()) == a, "after %s first is %d instead of %d", op, val<A>::read(q.first()), a);
			  VF_CHECK(eb || val<B>::read(q.second()) == b, "after %s second is %d instead of %d", op, val<B>::read(q.second()), b);
			  VF_CHECK(&q.template get<0>() == &q.first() && &q.template get<1>() == &q.second(), "get<> and the accessors differ");
			  if constexpr (!std::is_same_v<A, B>)
				  VF_CHECK((ea || eb) || (void*)&q.first() != (void*)&q.second(), "both members share an address");
			  else
				  VF_CHECK((void*)&q.first() != (void*)&q.second(), "two members of the same type share an address");
		};
		auto& q = p[0];
		static_assert(std::is_same_v<decltype(q.first()), A&> && std::is_same_v<decltype(std::as_const(q).first()), const A&>
					  && std::is_same_v<decltype(std::move(q).first()), A&&> && std::is_same_v<decltype(std::move(std::as_const(q)).second()), const B&&>
					  && std::is_same_v<decltype(std::move(q).template get<1>()), B&&> && std::is_same_v<decltype(q.template get<0>()), A&>
					  && std::is_same_v<decltype(std::as_const(q).template get<0>()), const A&>);
		show(p[0], 1, 2, "construction");
		show(p[1], 3, 4, "construction");
		// all operation sequences of length 4 over {swap, member swap, self-swap, copy, move, write first, write second}
		int ma[2], mb[2];
		for (int code = 0; code < 8 * 8 * 8 * 8; code++)
		{
			vf::state();
			vf::at(code);
			p[0] = P{ val<A>::make(1), val<B>::make(2) };
			p[1] = P{ val<A>::make(3), val<B>::make(4) };
			ma[0] = 1, mb[0] = 2, ma[1] = 3, mb[1] = 4;
			for (int c = code, i = 0; i < 4; i++, c /= 8)
			{
				const char* op = "";
				switch (c % 8)
				{
					case 0:
						op = "swap";
						swap(p[0], p[1]);
						std::swap(ma[0], ma[1]), std::swap(mb[0], mb[1]);
						break;
					case 1:
						op = "member swap";
						p[1].swap(p[0]);
						std::swap(ma[0], ma[1]), std::swap(mb[0], mb[1]);
						break;
					case 2:
						op = "copy or move construction";
						{
							P t{ std::move(p[0]) };
							p[0] = P{ val<A>::make(20 + i), val<B>::make(30 + i) };
							show(t, ma[0], mb[0], op);
							p[1] = std::move(t);
							ma[1] = ma[0], mb[1] = mb[0];
							ma[0] = 20 + i, mb[0] = 30 + i;
						}
						break;
					case 3:
						op = "copy assignment";
						if constexpr (cpy)
						{
							p[1] = p[0];
							ma[1] = ma[0], mb[1] = mb[0];
						}
						break;
					case 4:
						op = "copy construction";
						if constexpr (cpy)
						{
							P t{ p[1] };
							show(t, ma[1], mb[1], op);
							P u{ std::as_const(t) };
							show(u, ma[1], mb[1], op);
						}
						break;
					case 5:
						op		  = "assigning first";
						p[0].first() = val<A>::make(40 + i);
						ma[0]	  = 40 + i;
						break;
					case 6:
						op		   = "assigning second";
						p[0].template get<1>() = val<B>::make(50 + i);
						mb[0]	   = 50 + i;
						break;
					case 7:
						op = "structured access to an rvalue";
						{
							A a = std::move(p[1]).first();
							VF_CHECK(ea || val<A>::read(a) == ma[1], "the value moved from first");
							p[1].first() = std::move(a);
							B b = std::move(p[1]).template get<1>();
							VF_CHECK(eb || val<B>::read(b) == mb[1], "the value moved from second");
							p[1].template get<1>() = std::move(b);
						}
						break;
				}
				show(p[0], ma[0], mb[0], op);
				show(p[1], ma[1], mb[1], op);
			}
		}
	}

	struct not_default
	{
		int v;
		constexpr explicit not_default(int x) : v(x)
		{}
	};
	constexpr compressed_pair<E0, int> cpair{ E0{}, 5 };
	static_assert(cpair.second() == 5 && cpair.get<1>() == 5);
	constexpr compressed_pair<int, not_default> cpair2{ 4, 5 };
	static_assert(cpair2.first() == 4 && cpair2.second().v == 5);
	static_assert(std::is_same_v<decltype(compressed_pair{ 1, std::string{} }), compressed_pair<int, std::string>>);
	static_assert(!std::is_default_constructible_v<compressed_pair<int, not_default>> && std::is_default_constructible_v<compressed_pair<E0, int>>);

	void all_pairs()
	{
		if (!vf::group("pairs"))
			return;
		int i = 0;
#define PAIR(A, B)                                                                                                                                             \
	if (vf::mine(i++))                                                                                                                                         \
	pairs<A, B>(#A "," #B)
		PAIR(int, int);
		PAIR(int, std::string);
		PAIR(std::string, int);
		PAIR(std::string, std::string);
		PAIR(E0, int);
		PAIR(int, E0);
		PAIR(E0, E1);
		PAIR(E0, E0);
		PAIR(EF, int);
		PAIR(int, EF);
		PAIR(EF, EF);
		PAIR(E0, EF);
		PAIR(EF, E0);
		PAIR(std::unique_ptr<int>, E0);
		PAIR(E0, std::unique_ptr<int>);
		PAIR(std::unique_ptr<int>, std::string);
		PAIR(std::string, E1);
		PAIR(E1, std::string);
		PAIR(char, double);
		PAIR(double, char);
		vf::text(nullptr);
	}
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	for (auto& a : vf::args)
	{
		if (a == "D05")
			tagged();
		if (a == "D06")
			guards_all();
		if (a == "D07")
		{
			views<function_view<int(int)>>("views");
			views_misc();
		}
		if (a == "D08")
			all_pairs();
	}
	return vf::finish();
}
