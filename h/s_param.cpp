// S06 string_param: every construction form and operation sequence against a code point model.
#include "vf.h"
#include "utfref.h"
#include "leak.h"
#include <muu/string_param.h>
#include <memory>
using namespace muu;

namespace
{
	using cps = std::vector<uint32_t>;
	const std::vector<cps> payloads = {
		{},
		{ 'a' },
		{ ' ' },
		{ ' ', '\t', 'a', ' ', 'b', '\n' },
		{ 'a', 0, 'b', ' ' },
		{ 0xE9, 0x20AC, 0x1F600, ' ' },
		{ 0x3000, 'x', 0x10FFFF, 'y', 'z', 0xA0 },
		{ ' ', 'l', 'o', 'n', 'g', ' ', 's', 't', 'r', 'i', 'n', 'g', ' ', 'p', 'a', 's', 't', ' ', 's', 's', 'o',
		  ' ', 'b', 'u', 'f', 'f', 'e', 'r', ' ', 'x', 'y', 'z', ' ' },
		{ 'l', 'o', 'n', 'g', ' ', 's', 't', 'r', 'i', 'n', 'g', 'o', 'n', 'g', ' ', 's', 't', 'r', 'i', 'n', 'g', 'o',
		  'n', 'g', ' ', 's', 't', 'r', 'i', 'n', 'g', 'o', 'n', 'g', ' ', 's', 't', 'r', 'i', 'n', 'g', 0x1F600, 0xE9 },
	};
	bool ws(uint32_t c)
	{
		return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A)
			|| c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000;
	}
	cps trimmed(cps v)
	{
		while (!v.empty() && ws(v.back()))
			v.pop_back();
		while (!v.empty() && ws(v.front()))
			v.erase(v.begin());
		return v;
	}

	// text sources that outlive the params
	template <typename C>
	std::vector<std::basic_string<C>>& pool()
	{
		static std::vector<std::basic_string<C>> p = []
		{
			std::vector<std::basic_string<C>> o;
			for (auto& v : payloads)
				o.push_back(ref::encode_all<C>(v));
			return o;
		}();
		return p;
	}

	template <typename C>
	struct viewish
	{
		const std::basic_string<C>* s;
		operator std::basic_string_view<C>() const
		{
			return *s;
		}
	};

	enum form
	{
		by_view,
		by_cref,
		by_ptr_len,
		by_ptr,
		by_rvalue,
		by_viewish,
		forms
	};

	struct slot
	{
		std::unique_ptr<string_param> p;
		cps want;
		int own	  = 0; // 0 no, 1 yes, -1 not specified
		int type  = -1; // character type the payload was given in while it is still a plain view of the source
		int src	  = -1; // payload index of the source text while it has not been trimmed
	};

	template <typename C>
	constexpr int type_index = std::is_same_v<C, char>		 ? 0
							 : std::is_same_v<C, wchar_t>	 ? 1
							 : std::is_same_v<C, char16_t>	 ? 2
							 : std::is_same_v<C, char32_t> ? 3
															 : 4;

	template <typename C>
	bool build_t(slot& s, int f, int pi)
	{
		using S		= std::basic_string<C>;
		auto& src	= pool<C>()[pi];
		s.want		= payloads[pi];
		s.own		= 0;
		s.type		= type_index<C>;
		s.src		= pi;
		switch (f)
		{
			case by_view: s.p.reset(new string_param{ std::basic_string_view<C>{ src } }); break;
			case by_cref: s.p.reset(new string_param{ static_cast<const S&>(src) }); break;
			case by_ptr_len: s.p.reset(new string_param{ src.c_str(), src.length() }); break;
			case by_ptr:
				for (auto c : s.want)
					if (!c)
						return false;
				s.p.reset(new string_param{ src.c_str() });
				break;
			case by_rvalue:
			{
				S tmp{ src };
				s.p.reset(new string_param{ std::move(tmp) });
				tmp.assign(50, (C)'#');
				s.own = 1;
				break;
			}
			case by_viewish: s.p.reset(new string_param{ viewish<C>{ &src } }); break;
		}
		if (s.want.empty())
			s.own = 0;
		return true;
	}
	bool build(slot& s, int type, int f, int pi)
	{
		switch (type)
		{
			case 0: return build_t<char>(s, f, pi);
			case 1: return build_t<wchar_t>(s, f, pi);
			case 2: return build_t<char16_t>(s, f, pi);
			case 3: return build_t<char32_t>(s, f, pi);
#ifdef __cpp_char8_t
			case 4: return build_t<char8_t>(s, f, pi);
#endif
			case 5:
				s.want.clear();
				s.own = 0;
				s.type = s.src = -1;
				if (f == 0)
					s.p.reset(new string_param);
				else if (f == 1)
					s.p.reset(new string_param{ (const char*)nullptr });
				else if (f == 2)
					s.p.reset(new string_param{ (const char16_t*)nullptr });
				else if (f == 3)
					s.p.reset(new string_param{ (const wchar_t*)nullptr, 3 });
				else if (f == 4)
					s.p.reset(new string_param{ std::u32string_view{} });
				else
					s.p.reset(new string_param{ (const char8_t*)nullptr });
				return true;
		}
		return false;
	}

	void look(slot& s)
	{
		const string_param& p = *s.p;
		VF_CHECK(p.empty() == s.want.empty(), "empty() = %d with %zu characters expected", p.empty(), s.want.size());
		VF_CHECK(static_cast<bool>(p) == !s.want.empty(), "operator bool = %d with %zu characters expected",
				 (bool)p, s.want.size());
		if (s.want.empty())
			VF_CHECK(!p.owning(), "an empty param claims to own a payload");
		else if (s.own >= 0)
			VF_CHECK(p.owning() == (bool)s.own, "owning() = %d, expected %d", p.owning(), s.own);
	}

	template <typename C>
	void view(slot& s, bool rvalue)
	{
		using V			= std::basic_string_view<C>;
		const auto want = ref::encode_all<C>(s.want);
		V v				= rvalue ? static_cast<V>(static_cast<const string_param&&>(*s.p)) : V{ *s.p };
		VF_CHECK(v == want, "view has %zu units of size %zu, expected %zu (or other content)", v.size(), sizeof(C),
				 want.size());
		if (s.type == type_index<C> && s.own == 0 && s.src >= 0 && !s.want.empty())
			VF_CHECK(v.data() == pool<C>()[s.src].data(), "a non-owning param copied its text");
		if (s.type != type_index<C>)
			s.own = -1, s.type = -1, s.src = -1;
		V again{ *s.p };
		VF_CHECK(again == want, "second conversion disagrees");
	}
	template <typename C>
	void extract(slot& s)
	{
		using S			= std::basic_string<C>;
		const auto want = ref::encode_all<C>(s.want);
		S o				= static_cast<S>(std::move(*s.p));
		VF_CHECK(o == want, "string has %zu units of size %zu, expected %zu (or other content)", o.size(), sizeof(C),
				 want.size());
		// the emptied param stays usable
		(void)s.p->empty();
		*s.p = string_param{};
		s.want.clear();
		s.own = 0;
		s.type = s.src = -1;
	}

	void moved_from(slot& s)
	{
		s.want.clear();
		s.own = 0;
		s.type = s.src = -1;
		VF_CHECK(s.p->empty() && !s.p->owning(), "a moved-from param is not empty");
	}

	constexpr int n_ops = 19;
	void apply(int op, slot& a, slot& b)
	{
		vf::trans();
		switch (op)
		{
			case 0: view<char>(a, false); break;
			case 1: view<wchar_t>(a, false); break;
			case 2: view<char16_t>(a, false); break;
			case 3: view<char32_t>(a, true); break;
#ifdef __cpp_char8_t
			case 4: view<char8_t>(a, false); break;
			case 9: extract<char8_t>(a); break;
#endif
			case 5: extract<char>(a); break;
			case 6: extract<wchar_t>(a); break;
			case 7: extract<char16_t>(a); break;
			case 8: extract<char32_t>(a); break;
			case 10:
			{
				auto& r = a.p->trim();
				VF_CHECK(&r == a.p.get(), "trim() does not return its object");
				auto t = trimmed(a.want);
				if (t != a.want)
					a.src = -1;
				a.want = t;
				if (t.empty())
					a.own = 0;
				break;
			}
			case 11:
			{
				auto t = trimmed(a.want);
				string_param n{ std::move(*a.p).trim() };
				slot old{ std::move(a.p), {}, 0, -1, -1 };
				moved_from(old);
				a.p.reset(new string_param{ std::move(n) });
				if (t != a.want)
					a.src = -1;
				a.want = t;
				if (t.empty())
					a.own = 0;
				break;
			}
			case 12: // assign from b
			{
				*a.p   = std::move(*b.p);
				a.want = b.want, a.own = b.own, a.type = b.type, a.src = b.src;
				moved_from(b);
				break;
			}
			case 13: // assign to b
			{
				*b.p   = std::move(*a.p);
				b.want = a.want, b.own = a.own, b.type = a.type, b.src = a.src;
				moved_from(a);
				std::swap(a, b);
				break;
			}
			case 14:
			{
				auto& r = *a.p;
				r		= std::move(*a.p); // self-move keeps the value
				break;
			}
			case 15:
			{
				string_param n{ std::move(*a.p) };
				slot old{ std::move(a.p), {}, 0, -1, -1 };
				moved_from(old);
				a.p.reset(new string_param{ std::move(n) });
				break;
			}
			case 16:
			{
				std::ostringstream o;
				o << *a.p;
				VF_CHECK(o.str() == ref::encode_all<char>(a.want), "streamed text differs");
				if (a.type != 0)
					a.own = a.type = a.src = -1;
				break;
			}
			case 17:
			{
				std::wostringstream o;
				o << *a.p;
				VF_CHECK(o.str() == ref::encode_all<wchar_t>(a.want), "streamed wide text differs");
				if (a.type != 1)
					a.own = a.type = a.src = -1;
				break;
			}
			case 18: std::swap(a, b); break;
		}
		if (a.want.empty())
			a.own = 0;
		look(a);
		look(b);
	}

	void finale(slot& a)
	{
		view<char32_t>(a, false);
		view<char16_t>(a, true);
		view<char>(a, true);
		view<wchar_t>(a, true);
#ifdef __cpp_char8_t
		view<char8_t>(a, true);
#endif
	}

	void sequences(int depth, int ta, int fa, int pa, int tb, int fb, int pb, bool moves)
	{
		std::vector<int> q(depth, 0);
		static std::string label;
		for (;;)
		{
			bool ok = true;
			if (!moves)
				for (int o : q)
					ok = ok && o != 12 && o != 13 && o != 18;
			if (ok)
			{
				int64_t code = 0;
				for (int o : q)
					code = code * 100 + o;
				vf::at(ta, fa, pa, tb, fb, pb, depth, code);
				const long live = vf::live_allocs;
				{
					slot a, b;
					if (!build(a, ta, fa, pa) || !build(b, tb, fb, pb))
						return;
					look(a);
					look(b);
					for (int o : q)
						apply(o, a, b);
					finale(a);
					finale(b);
				}
				VF_CHECK(vf::live_allocs == live, "%ld memory blocks leaked", vf::live_allocs - live);
				vf::state();
				vf::trace();
			}
			int p = depth - 1;
			while (p >= 0 && ++q[p] == n_ops)
				q[p--] = 0;
			if (p < 0)
				break;
		}
	}
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	pool<char>(), pool<wchar_t>(), pool<char16_t>(), pool<char32_t>();
#ifdef __cpp_char8_t
	pool<char8_t>();
#endif
	const int np = (int)payloads.size();
	// the byte order policy must read every source natively, or the model does not apply
	for (auto& v : payloads)
	{
		std::vector<ref::rec> r;
		for (int w = 0; w < 2; w++)
		{
			auto s16 = ref::encode_all<char16_t>(v);
			auto s32 = ref::encode_all<char32_t>(v);
			bool ok	 = w ? ref::decode(std::u16string_view{ s16 }, r) : ref::decode(std::u32string_view{ s32 }, r);
			if (!ok || r.size() != v.size())
				abort();
		}
	}
	if (vf::group("single"))
	{
		uint64_t i = 0;
		for (int t = 0; t < 6; t++)
			for (int f = 0; f < forms; f++)
				for (int p = 0; p < (t == 5 ? 1 : np); p++)
					if (vf::mine(i++))
						for (int d = 0; d <= (vf::thorough ? 4 : 3); d++)
							sequences(d, t, f, p, 5, 0, 0, false);
		vf::sample("5 character types x 6 constructors x 9 payloads, all operation sequences up to length 3 of 16 operations "
				   "(5 view conversions, 5 string extractions, trim, moves, streams)");
	}
	if (vf::group("pair"))
	{
		uint64_t i = 0;
		const int fs[2] = { by_view, by_rvalue };
		const int ps[2] = { 3, 7 };
		for (int ta = 0; ta < 5; ta++)
			for (int fa : fs)
				for (int pa : ps)
					for (int tb = 0; tb < 6; tb++)
						for (int fb : fs)
							for (int pb : ps)
							{
								if (tb == 5 && (fb != by_view || pb != 3))
									continue;
								if (vf::mine(i++))
									for (int d = 1; d <= (vf::thorough ? 3 : 2); d++)
										sequences(d, ta, fa, pa, tb, fb, pb, true);
							}
		vf::sample("two params of every type and ownership, all sequences up to length 2 of 19 operations incl. move "
				   "assignment both ways, self-move, swap");
	}
	return vf::finish();
}
