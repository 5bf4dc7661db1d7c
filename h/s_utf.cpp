// S01 utf8_decoder, S02 utf16_decoder, S03 utf_decode, S04 transcode, S07 trim
#include "vf.h"
#include "utfref.h"
#include <muu/strings.h>
using namespace muu;

namespace
{
	// ------------------------------------------------------------------------------------------------- S01
	std::vector<bool> pre[4], val[4]; // by length 1..3 (prefix) / 1..4 value via decode

	void mark()
	{
		for (int n = 1; n <= 3; n++)
			pre[n].assign((size_t)1 << (8 * n), false);
		for (uint32_t c = 0; c <= 0x10FFFF; c++)
			if (ref::scalar(c))
			{
				std::string s;
				ref::encode(c, s);
				uint32_t k = 0;
				for (size_t i = 0; i + 1 < s.size(); i++)
				{
					k = k * 256 + (uint8_t)s[i];
					pre[i + 1][k] = true;
				}
			}
	}

	template <int How>
	void feed(utf8_decoder& d, uint8_t b)
	{
		if constexpr (How == 0)
			d(b);
		else if constexpr (How == 1)
			d((char)b);
		else
			d((char8_t)b);
	}

	template <int How>
	void dfs8(const utf8_decoder& d, std::vector<uint32_t>& seq, int ctx, int maxdepth)
	{
		for (unsigned b = 0; b < 256; b++)
		{
			if (seq.empty() && !vf::mine(b))
				continue;
			utf8_decoder e = d;
			feed<How>(e, (uint8_t)b);
			vf::trans();
			seq.push_back(b);
			uint32_t cp = 0, k = 0;
			for (auto x : seq)
				k = k * 256 + x;
			const bool full	  = ref::one(seq, 0, 1, cp) == seq.size();
			const bool prefix = !full && seq.size() <= 3 && pre[seq.size()][k];
			vf::at(ctx, How, (int64_t)seq.size(), (int64_t)k);
			VF_CHECK(e.has_value() == full && e.needs_more_input() == prefix && e.error() == (!full && !prefix),
					 "has_value=%d needs_more=%d error=%d, expected %d %d %d",
					 e.has_value(),
					 e.needs_more_input(),
					 e.error(),
					 full,
					 prefix,
					 !full && !prefix);
			if (full)
				VF_CHECK(e.value() == cp, "value U+%X expected U+%X", (unsigned)e.value(), cp);
			else if (prefix && (int)seq.size() < maxdepth && e.needs_more_input())
				dfs8<How>(e, seq, ctx, maxdepth);
			else if (e.error())
			{
				e.clear_error();
				VF_CHECK(!e.error() && !e.needs_more_input(), "still in error / mid-sequence after clear_error()");
				feed<How>(e, 0x41);
				VF_CHECK(e.has_value() && e.value() == 0x41, "not usable after clear_error()");
			}
			seq.pop_back();
		}
		vf::state();
	}

	constexpr bool ce8()
	{
		utf8_decoder d;
		d(uint8_t{ 0xE2 });
		if (!d.needs_more_input())
			return false;
		d('\x82');
		d(char8_t{ 0xAC });
		if (!d.has_value() || d.value() != U'\u20AC')
			return false;
		d(uint8_t{ 0xFF });
		return d.error();
	}
	static_assert(ce8());

	void s01()
	{
		mark();
		vf::group("utf8_fresh");
		std::vector<uint32_t> seq;
		dfs8<0>(utf8_decoder{}, seq, 0, 4);
		dfs8<1>(utf8_decoder{}, seq, 0, 4);
		dfs8<2>(utf8_decoder{}, seq, 0, 4);
		vf::sample("every byte string that is a prefix of a well-formed sequence, extended by every byte; 3 overloads");
		vf::group("utf8_after_value");
		int id = 1;
		for (uint32_t c : { 0u, 0x41u, 0x7Fu, 0x80u, 0xE9u, 0x7FFu, 0x800u, 0x20ACu, 0xD7FFu, 0xE000u, 0xFFFFu, 0x10000u,
							0x1F600u, 0x10FFFFu })
		{
			std::string s;
			ref::encode(c, s);
			utf8_decoder d;
			for (char x : s)
				d(x);
			dfs8<0>(d, seq, id++, vf::thorough ? 4 : 3);
			vf::trace();
		}
		vf::sample("continuing after a completed code point of every length");
		vf::group("utf8_after_error");
		for (auto s : { "\x80", "\xBF", "\xC0", "\xC1", "\xF5", "\xFF", "\xC3\x41", "\xE0\x80", "\xE2\x82\x41", "\xED\xA0", "\xF0\x80",
						"\xF0\x9F\x98\xC3", "\xF4\x90", "\xE2\xC3" })
		{
			utf8_decoder d;
			for (const char* p = s; *p; p++)
			{
				vf::at(id, (int64_t)(uint8_t)*p);
				if (d.error())
					vf::fail("error before the offending byte");
				else
					d(*p);
			}
			VF_REQ(d.error());
			if (d.error())
			{
				d.clear_error();
				dfs8<0>(d, seq, id, vf::thorough ? 4 : 3);
			}
			id++;
			vf::trace();
		}
		vf::sample("continuing after clear_error() from every class of ill-formed prefix");
	}

	// ------------------------------------------------------------------------------------------------- S02
	template <typename F>
	void all16(const utf16_decoder& d, int64_t pending, F&& feed)
	{
		for (unsigned b = 0; b < 65536; b++)
		{
			utf16_decoder e = d;
			feed(e, (uint16_t)b);
			vf::trans();
			const bool hi = b >= 0xD800 && b <= 0xDBFF, lo = b >= 0xDC00 && b <= 0xDFFF;
			bool value, more;
			uint32_t cp;
			if (pending >= 0)
				value = lo, more = false, cp = 0x10000u + ((uint32_t)pending - 0xD800u) * 0x400u + (b - 0xDC00u);
			else
				value = !hi && !lo, more = hi, cp = b;
			vf::at(pending, (int64_t)b);
			VF_CHECK(e.has_value() == value && e.needs_more_input() == more && e.error() == (!value && !more),
					 "unit %X after pending %llX: has_value=%d needs_more=%d error=%d",
					 b,
					 (long long)pending,
					 e.has_value(),
					 e.needs_more_input(),
					 e.error());
			if (value)
				VF_CHECK(e.value() == cp, "value U+%X expected U+%X", (unsigned)e.value(), cp);
			if (e.error())
			{
				e.clear_error();
				VF_CHECK(!e.error() && !e.needs_more_input() && !e.has_value(), "bad state after clear_error()");
				e(u'\x41');
				VF_CHECK(e.has_value() && e.value() == 0x41, "not usable after clear_error()");
			}
		}
		vf::state();
	}
	constexpr bool ce16()
	{
		utf16_decoder d;
		d(u'\xD83D');
		if (!d.needs_more_input())
			return false;
		d(u'\xDE00');
		return d.has_value() && d.value() == 0x1F600;
	}
	static_assert(ce16());
	void s02()
	{
		auto f0 = [](utf16_decoder& d, uint16_t u) { d(u); };
		auto f1 = [](utf16_decoder& d, uint16_t u) { d((char16_t)u); };
		vf::group("utf16_pending");
		for (uint32_t h = 0xD800; h <= 0xDBFF; h++)
			if (vf::mine(h))
			{
				utf16_decoder d;
				d((char16_t)h);
				VF_REQ(d.needs_more_input());
				all16(d, h, f0);
			}
		vf::sample("every pending high surrogate x every following unit (1024 x 65536)");
		vf::group("utf16_start");
		if (vf::mine(0))
		{
			utf16_decoder d;
			VF_REQ(!d.has_value() && !d.error() && !d.needs_more_input());
			all16(d, -1, f0);
			all16(d, -1, f1);
			for (uint16_t u : { 0x0, 0x41, 0xD7FF, 0xE000, 0xFFFF })
			{
				utf16_decoder e;
				e(u);
				all16(e, -1, f1);
			}
			for (uint16_t h : { 0xD800, 0xDBFF })
				for (uint16_t l : { 0xDC00, 0xDFFF })
				{
					utf16_decoder e;
					e(h), e(l);
					if (e.has_value())
						all16(e, -1, f0);
				}
			for (uint16_t l : { 0xDC00, 0xDFFF }) // lone low surrogate, cleared
			{
				utf16_decoder e;
				e(l);
				VF_REQ(e.error());
				if (e.error())
				{
					e.clear_error();
					all16(e, -1, f0);
				}
			}
			for (uint16_t n : { 0x41, 0xD800, 0xE000 }) // high surrogate not followed by a low one, cleared
			{
				utf16_decoder e;
				e(uint16_t{ 0xD834 });
				e(n);
				VF_REQ(e.error());
				if (e.error())
				{
					e.clear_error();
					all16(e, -1, f0);
				}
			}
			vf::sample("every unit from the start state, after a value of each kind and after each kind of cleared error");
		}
	}

	// ------------------------------------------------------------------------------------------------- S03
	ref::rec got[64];
	size_t ngot;
	size_t stop_at;

	template <typename T>
	void run_decode(std::basic_string_view<T> s, bool rev, int arity)
	{
		ngot = 0;
		switch (arity)
		{
			case 3:
				utf_decode(s,
						   rev,
						   [](char32_t c, size_t a, size_t n) noexcept -> bool
						   {
							   got[ngot & 63] = { (uint32_t)c, a, n };
							   ngot++;
							   return ngot != stop_at;
						   });
				break;
			case 2:
				utf_decode(s,
						   rev,
						   [](char32_t c, size_t a) noexcept -> bool
						   {
							   got[ngot & 63] = { (uint32_t)c, a, 0 };
							   ngot++;
							   return ngot != stop_at;
						   });
				break;
			case 1:
				utf_decode(s,
						   rev,
						   [](char32_t c) noexcept -> bool
						   {
							   got[ngot & 63] = { (uint32_t)c, 0, 0 };
							   ngot++;
							   return ngot != stop_at;
						   });
				break;
			case 0:
			{
				auto f = [](char32_t c, size_t a, size_t n) noexcept -> void
				{
					got[ngot & 63] = { (uint32_t)c, a, n };
					ngot++;
				};
				if (rev)
					utf_decode(s, true, f);
				else
					utf_decode(s, f);
				break;
			}
		}
	}

	template <typename T>
	void check_decode(std::basic_string_view<T> s, bool extra)
	{
		size_t begin;
		const auto u = ref::prepare(s, begin);
		std::vector<ref::rec> want;
		// longest well-formed prefix
		size_t b = begin;
		while (b < u.size())
		{
			uint32_t cp;
			size_t n = ref::one(u, b, sizeof(T), cp);
			if (!n)
				break;
			want.push_back({ cp, b, n });
			b += n;
		}
		const bool well = b == u.size();
		stop_at			= 0;
		for (int rev = 0; rev < 2; rev++)
		{
			vf::trans();
			run_decode(s, rev, 3);
			vf::at((int64_t)sizeof(T), rev);
			size_t pos = rev ? u.size() : begin;
			bool ok	   = ngot < 64;
			for (size_t i = 0; i < ngot && ok; i++)
			{
				const auto& g = got[i];
				if (g.count == 0 || g.count > 4)
				{
					ok = false;
					break;
				}
				if (rev)
				{
					if (g.start + g.count != pos || g.start < begin)
					{
						ok = false;
						break;
					}
					pos = g.start;
				}
				else
				{
					if (g.start != pos || g.start + g.count > u.size())
					{
						ok = false;
						break;
					}
					pos += g.count;
				}
				uint32_t cp	   = 0;
				const size_t n = ref::one(u, g.start, sizeof(T), cp);
				if (!(n == g.count && cp == g.cp) && !(g.count == 1 && g.cp == u[g.start]))
					ok = false;
			}
			if (pos != (rev ? begin : u.size()))
				ok = false;
			VF_CHECK(ok, "the reported pieces do not cover the input exactly once with correct code points");
			if (!rev)
			{
				bool pfx = ngot >= want.size();
				for (size_t i = 0; pfx && i < want.size(); i++)
					pfx = got[i] == want[i];
				VF_CHECK(pfx, "well-formed prefix not decoded exactly");
				VF_CHECK(!well || ngot == want.size(), "%zu code points reported, expected %zu", ngot, want.size());
			}
			else if (well)
			{
				bool eq = ngot == want.size();
				for (size_t i = 0; eq && i < want.size(); i++)
					eq = got[i] == want[want.size() - 1 - i];
				VF_CHECK(eq, "reverse decode is not the reversed forward decode");
			}
			if (extra)
			{
				const auto n = ngot;
				ref::rec base[64];
				for (size_t i = 0; i < n && i < 64; i++)
					base[i] = got[i];
				auto cmp = [&](int arity, size_t k)
				{
					stop_at = k;
					run_decode(s, rev, arity);
					vf::trans();
					size_t e = k && arity && k < n ? k : n;
					bool eq	 = ngot == e;
					for (size_t i = 0; eq && i < e; i++)
						eq = got[i].cp == base[i].cp && (arity == 1 || got[i].start == base[i].start)
						  && (arity == 1 || arity == 2 || got[i].count == base[i].count);
					VF_CHECK(eq, "arity %d, stop after %zu: %zu calls, expected %zu (or different values)", arity, k, ngot, e);
					stop_at = 0;
				};
				for (int arity : { 3, 2, 1 })
					for (size_t k = 0; k <= n; k++)
						cmp(arity, k);
				cmp(0, 0);
			}
		}
	}

	std::string hexs;
	template <typename T>
	void words(const std::vector<uint32_t>& alpha, int maxlen, int extralen)
	{
		std::basic_string<T> s;
		std::vector<size_t> idx;
		uint64_t count = 0;
		for (int len = 1; len <= maxlen; len++)
		{
			idx.assign(len, 0);
			for (;;)
			{
				if (vf::mine(idx[0] * alpha.size() + idx[len > 1 ? 1 : 0]))
				{
					s.clear();
					hexs.clear();
					for (auto i : idx)
					{
						s += (T)alpha[i];
						char b[12];
						snprintf(b, sizeof b, "%X.", alpha[i]);
						hexs += b;
					}
					vf::text(hexs.c_str());
					check_decode(std::basic_string_view<T>{ s }, len <= extralen);
					vf::state();
					count++;
				}
				int p = len - 1;
				while (p >= 0 && ++idx[p] == alpha.size())
					idx[p--] = 0;
				if (p < 0)
					break;
			}
		}
		vf::ctx.text = nullptr;
		vf::sample("all words up to length %d over %zu code units (%llu)", maxlen, alpha.size(), (unsigned long long)count);
	}

	constexpr int ce_count(std::u16string_view s, bool rev)
	{
		int n = 0;
		utf_decode(s, rev, [&](char32_t) noexcept { n++; });
		return n;
	}
	static_assert(ce_count(u"a\U0001F600b", false) == 3 && ce_count(u"a\U0001F600b", true) == 3);

	void s03()
	{
		const std::vector<uint32_t> a8	= { 0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBB, 0xBF, 0xC1,
											0xC2, 0xDF, 0xE0, 0xE2, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF };
		const std::vector<uint32_t> a8s = { 0x41, 0x80, 0x9F, 0xA0, 0xBF, 0xC3, 0xE2, 0xED, 0xF0, 0xF4 };
		const std::vector<uint32_t> a16 = { 0x0,	0x41,	0xE9,	0x4100, 0x20AC, 0xD7FF, 0xD800,
											0xD83D, 0xDBFF, 0xDC00, 0xDE00, 0xDFFF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF };
		const std::vector<uint32_t> a32 = { 0x0,	0x41,	  0x20AC,	0xFEFF,		0xFFFE0000, 0x1F600,
											0xD800, 0x10FFFF, 0x110000, 0x41000000, 0xFFFFFFFF, 0x01000000 };
		vf::group("utf_decode_8");
		words<char>(a8, vf::thorough ? 6 : 5, 3);
		vf::group("utf_decode_8deep");
		words<char>(a8s, vf::thorough ? 8 : 7, 4);
		vf::group("utf_decode_char8_t");
		words<char8_t>(a8, 4, 3);
		vf::group("utf_decode_8bom");
		{
			// every short word behind a byte order mark
			std::vector<uint32_t> idx;
			for (uint32_t w = 0; w < a8.size() * a8.size() * a8.size(); w++)
				if (vf::mine(w))
					for (int len = 0; len <= 3; len++)
					{
						std::string s = "\xEF\xBB\xBF";
						uint32_t x	  = w;
						for (int i = 0; i < len; i++, x /= (uint32_t)a8.size())
							s += (char)a8[x % a8.size()];
						vf::at(w, len);
						check_decode(std::string_view{ s }, len < 3);
						vf::state();
					}
			vf::sample("byte order mark followed by every word up to length 3");
		}
		vf::group("utf_decode_16");
		words<char16_t>(a16, vf::thorough ? 6 : 5, 3);
		vf::group("utf_decode_32");
		words<char32_t>(a32, vf::thorough ? 5 : 4, 3);
		vf::group("utf_decode_wchar");
		words<wchar_t>(a32, 4, 3);
		// every code point, alone and between ASCII characters, in every encoding
		vf::group("utf_decode_all_code_points");
		static std::string label;
		for (uint32_t c = 0; c <= 0x10FFFF; c++)
			if (ref::scalar(c) && vf::mine(c >> 8))
				for (int form = 0; form < 2; form++)
				{
					std::vector<uint32_t> v = form ? std::vector<uint32_t>{ 0x41, c, 0x42 } : std::vector<uint32_t>{ c };
					label					= "U+" + std::to_string(c) + (form ? "b" : "a");
					vf::text(label.c_str());
					check_decode(std::string_view{ ref::encode_all<char>(v) }, false);
					check_decode(std::u16string_view{ ref::encode_all<char16_t>(v) }, false);
					check_decode(std::u32string_view{ ref::encode_all<char32_t>(v) }, false);
					vf::state();
				}
		vf::ctx.text = nullptr;
		vf::sample("all 1112064 Unicode scalar values in UTF-8, UTF-16 and UTF-32, forwards and backwards");
		// byte order detection window
		vf::group("utf_decode_byte_order");
		if (vf::mine(3))
		{
			for (int len = 1; len <= 20; len++)
				for (int split = 0; split <= len; split++)
					for (int first = 0; first < 2; first++)
						for (int bom = 0; bom < 3; bom++)
						{
							std::u16string s;
							std::u32string t;
							if (bom == 1)
								s += u'\xFEFF', t += U'\xFEFF';
							if (bom == 2)
								s += u'\xFFFE', t += (char32_t)0xFFFE0000u;
							for (int i = 0; i < len; i++)
							{
								const bool sw = (i < split) == !first;
								s += (char16_t)(sw ? 0x4100 : 0x41);
								t += (char32_t)(sw ? 0x41000000 : 0x41);
							}
							vf::at(len, split, first, bom);
							check_decode(std::u16string_view{ s }, false);
							check_decode(std::u32string_view{ t }, false);
							vf::state();
						}
			vf::sample("byte order detection: native/swapped runs of every length up to 20, with no, native and swapped BOM");
		}
	}

	// ------------------------------------------------------------------------------------------------- S04
	template <typename To, typename From>
	void tc(std::basic_string_view<From> s)
	{
		vf::trans();
		vf::at((int64_t)sizeof(From), std::is_same_v<From, char8_t> || std::is_same_v<From, wchar_t>, (int64_t)sizeof(To),
			   std::is_same_v<To, char8_t> || std::is_same_v<To, wchar_t>);
		std::basic_string<To> want;
		if constexpr (sizeof(To) == sizeof(From))
		{
			for (auto c : s)
				want += (To)c;
		}
		else
		{
			std::vector<ref::rec> r;
			if (!ref::decode(s, r))
				return; // ill-formed under the byte order policy: outside the property
			for (auto& x : r)
				ref::encode(x.cp, want);
		}
		const auto have = transcode<To>(s);
		VF_CHECK(std::basic_string_view<To>(have) == want, "transcode produced %zu units, expected %zu (or other content)", have.size(), want.size());
	}
	template <typename From>
	void tc_all(const std::vector<uint32_t>& v)
	{
		const auto s = ref::encode_all<From>(v);
		std::basic_string_view<From> sv{ s };
		tc<char>(sv);
		tc<char8_t>(sv);
		tc<char16_t>(sv);
		tc<char32_t>(sv);
		tc<wchar_t>(sv);
	}
	void tc_from_all(const std::vector<uint32_t>& v)
	{
		tc_all<char>(v);
		tc_all<char8_t>(v);
		tc_all<char16_t>(v);
		tc_all<char32_t>(v);
		tc_all<wchar_t>(v);
		vf::state();
	}
	void s04()
	{
		static std::string label;
		vf::group("transcode_code_points");
		for (uint32_t c = 0; c <= 0x10FFFF; c++)
			if (ref::scalar(c) && vf::mine(c >> 8))
			{
				label = "U+" + std::to_string(c);
				vf::text(label.c_str());
				if (c < 0x3000 || c % 16 == 0 || (c & 0xFFFE) == 0xFFFE || vf::thorough)
					tc_from_all({ c });
				tc_from_all({ 0x41, c });
			}
		vf::ctx.text = nullptr;
		vf::sample("every Unicode scalar value, all 25 ordered pairs of character types");
		vf::group("transcode_words");
		const std::vector<uint32_t> a = { 0,	  0x41,	  0x7F,	  0x80,	   0xE9,	0x7FF,	 0x800,	 0x20AC,
										  0xD7FF, 0xE000, 0xFEFF, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF };
		std::vector<size_t> idx;
		for (int len = 0; len <= (vf::thorough ? 5 : 4); len++)
		{
			idx.assign(len, 0);
			for (;;)
			{
				if (vf::mine(len ? idx[0] : 0))
				{
					std::vector<uint32_t> v;
					label.clear();
					for (auto i : idx)
						v.push_back(a[i]), label += std::to_string(a[i]) + ".";
					vf::text(label.c_str());
					tc_from_all(v);
				}
				int p = len - 1;
				while (p >= 0 && ++idx[p] == a.size())
					idx[p--] = 0;
				if (p < 0)
					break;
			}
		}
		for (auto x : a)
			for (auto y : a)
				if (vf::mine(x + y))
					for (int n : { 15, 16, 17, 31, 64 })
					{
						std::vector<uint32_t> v;
						for (int i = 0; i < n; i++)
							v.push_back(i % 3 ? x : y);
						label = std::to_string(x) + "/" + std::to_string(y) + "*" + std::to_string(n);
						vf::text(label.c_str());
						tc_from_all(v);
					}
		vf::ctx.text = nullptr;
		vf::sample("all words up to length 4 over 15 code points incl. NUL and BOM; long strings");
	}

	// ------------------------------------------------------------------------------------------------- S07
	bool ws(uint32_t c)
	{
		return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A)
			|| c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000;
	}
	template <typename T>
	void trim_one(const std::vector<uint32_t>& v)
	{
		const auto s = ref::encode_all<T>(v);
		std::basic_string_view<T> sv{ s };
		std::vector<ref::rec> r;
		if (!ref::decode(sv, r))
			return; // ill-formed under the byte order policy: outside the property
		size_t first = r.size(), last = 0;
		for (size_t i = 0; i < r.size(); i++)
			if (!ws(r[i].cp))
			{
				if (first == r.size())
					first = i;
				last = i;
			}
		vf::at((int64_t)sizeof(T), std::is_same_v<T, char8_t> || std::is_same_v<T, wchar_t>);
		vf::trans(3);
		const auto t = trim(sv), l = trim_left(sv), q = trim_right(sv);
		static_assert(std::is_same_v<decltype(trim(sv)), std::basic_string_view<T>>);
		if (first == r.size())
			VF_CHECK(t.empty() && l.empty() && q.empty(), "string of whitespace only not trimmed to nothing");
		else
		{
			const size_t a = r[first].start, b = r[last].start + r[last].count;
			VF_CHECK(t.data() == sv.data() + a && t.size() == b - a, "trim(): %zu units, expected %zu", t.size(), b - a);
			VF_CHECK(l.data() == sv.data() + a && l.size() == sv.size() - a, "trim_left(): %zu units, expected %zu", l.size(), sv.size() - a);
			VF_CHECK(q.data() == sv.data() && q.size() == b, "trim_right(): %zu units, expected %zu", q.size(), b);
		}
	}
	static_assert(trim(" \t a b\n"sv) == "a b"sv && trim_left(u" x "sv) == u"x "sv && trim_right(U"\u3000x\u3000"sv) == U"\u3000x"sv);
	void trim_all(const std::vector<uint32_t>& v)
	{
		trim_one<char>(v);
		trim_one<char8_t>(v);
		trim_one<char16_t>(v);
		trim_one<char32_t>(v);
		trim_one<wchar_t>(v);
		vf::state();
	}
	void s07()
	{
		static std::string label;
		vf::group("trim_words");
		const std::vector<uint32_t> a = { 0, 0x20, 0x09, 0x61, 0xA0, 0xE9, 0x2003, 0x3000, 0x1F600, 0x200B };
		std::vector<size_t> idx;
		for (int len = 0; len <= (vf::thorough ? 6 : 5); len++)
		{
			idx.assign(len, 0);
			for (;;)
			{
				if (vf::mine(len ? idx[0] * a.size() + idx[len > 1] : 0))
				{
					std::vector<uint32_t> v;
					label.clear();
					for (auto i : idx)
						v.push_back(a[i]), label += std::to_string(a[i]) + ".";
					vf::text(label.c_str());
					trim_all(v);
				}
				int p = len - 1;
				while (p >= 0 && ++idx[p] == a.size())
					idx[p--] = 0;
				if (p < 0)
					break;
			}
		}
		vf::sample("all words up to length 5 over 10 code points (5 of them whitespace), 5 character types");
		vf::group("trim_code_points");
		for (uint32_t c = 0; c <= 0x10FFFF; c++)
			if (ref::scalar(c) && vf::mine(c >> 8))
			{
				label = "U+" + std::to_string(c);
				vf::text(label.c_str());
				trim_all({ c, 0x62, c });
				trim_all({ 0x20, c, 0x20 });
			}
		vf::ctx.text = nullptr;
		vf::sample("every code point at either end of the text and as the only text between blanks");
	}
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	const std::string w = vf::args.at(0);
	if (w == "S01")
		s01();
	else if (w == "S02")
		s02();
	else if (w == "S03")
		s03();
	else if (w == "S04")
		s04();
	else if (w == "S07")
		s07();
	return vf::finish();
}
