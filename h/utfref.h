// Boring reference model of UTF-8/16/32, independent of muu.
#pragma once
#include <string>
#include <string_view>
#include <vector>
#include <cstdint>

namespace ref
{
	struct rec
	{
		uint32_t cp;
		size_t start, count;
		bool operator==(const rec& o) const
		{
			return cp == o.cp && start == o.start && count == o.count;
		}
	};

	template <typename T>
	uint32_t unit(T c)
	{
		if constexpr (sizeof(T) == 1)
			return (uint8_t)c;
		else if constexpr (sizeof(T) == 2)
			return (uint16_t)c;
		else
			return (uint32_t)c;
	}

	template <typename T>
	uint32_t swapped(T c)
	{
		uint32_t u = unit(c);
		if constexpr (sizeof(T) == 1)
			return u;
		else if constexpr (sizeof(T) == 2)
			return (u >> 8) | ((u & 0xFFu) << 8);
		else
			return (u >> 24) | ((u >> 8) & 0xFF00u) | ((u << 8) & 0xFF0000u) | (u << 24);
	}

	inline bool scalar(uint32_t c)
	{
		return c <= 0x10FFFFu && !(c >= 0xD800u && c <= 0xDFFFu);
	}

	// length of the well-formed sequence at s[i..e), or 0; value in cp
	inline size_t one(const std::vector<uint32_t>& s, size_t i, int width, uint32_t& cp)
	{
		const size_t e = s.size();
		if (i >= e)
			return 0;
		if (width == 4)
		{
			cp = s[i];
			return 1;
		}
		if (width == 2)
		{
			uint32_t a = s[i];
			if (a < 0xD800u || a > 0xDFFFu)
			{
				cp = a;
				return 1;
			}
			if (a >= 0xDC00u || i + 1 >= e || s[i + 1] < 0xDC00u || s[i + 1] > 0xDFFFu)
				return 0;
			cp = 0x10000u + (a - 0xD800u) * 0x400u + (s[i + 1] - 0xDC00u);
			return 2;
		}
		uint32_t a = s[i];
		size_t n   = a < 0x80u ? 1 : a < 0xC0u ? 0 : a < 0xE0u ? 2 : a < 0xF0u ? 3 : a < 0xF8u ? 4 : 0;
		if (!n || i + n > e)
			return 0;
		if (n == 1)
		{
			cp = a;
			return 1;
		}
		uint32_t v = a & (0xFFu >> (n + 1));
		for (size_t k = 1; k < n; k++)
		{
			if ((s[i + k] & 0xC0u) != 0x80u)
				return 0;
			v = v * 64u + (s[i + k] & 0x3Fu);
		}
		static const uint32_t least[5] = { 0, 0, 0x80u, 0x800u, 0x10000u };
		if (v < least[n] || !scalar(v))
			return 0;
		cp = v;
		return n;
	}

	// byte order mark / byte order policy of muu::utf_decode: a leading BOM decides and is skipped; without one,
	// UTF-16/32 text is taken as native unless, among the first 16 units, a zero low byte is commoner than a zero
	// high byte
	template <typename T>
	std::vector<uint32_t> prepare(std::basic_string_view<T> s, size_t& begin)
	{
		begin	  = 0;
		bool swap = false;
		if constexpr (sizeof(T) == 1)
		{
			if (s.size() >= 3 && unit(s[0]) == 0xEF && unit(s[1]) == 0xBB && unit(s[2]) == 0xBF)
				begin = 3;
		}
		else if (!s.empty())
		{
			uint32_t bom = 0xFEFFu, bad = sizeof(T) == 2 ? 0xFFFEu : 0xFFFE0000u;
			if (unit(s[0]) == bom)
				begin = 1;
			else if (unit(s[0]) == bad)
				begin = 1, swap = true;
			else
			{
				int lo = 0, hi = 0;
				for (size_t i = 0; i < s.size() && i < 16; i++)
				{
					lo += (unit(s[i]) & 0xFFu) == 0;
					hi += (unit(s[i]) >> (sizeof(T) * 8 - 8)) == 0;
				}
				swap = lo > hi;
			}
		}
		std::vector<uint32_t> u;
		for (auto c : s)
			u.push_back(swap ? swapped(c) : unit(c));
		return u;
	}

	// decodes a well-formed string; false if it is ill-formed
	template <typename T>
	bool decode(std::basic_string_view<T> s, std::vector<rec>& out)
	{
		out.clear();
		size_t b;
		auto u = prepare(s, b);
		while (b < u.size())
		{
			uint32_t cp;
			size_t n = one(u, b, sizeof(T), cp);
			if (!n)
				return false;
			out.push_back({ cp, b, n });
			b += n;
		}
		return true;
	}

	template <typename T>
	void encode(uint32_t c, std::basic_string<T>& o)
	{
		if constexpr (sizeof(T) == 4)
			o += (T)c;
		else if constexpr (sizeof(T) == 2)
		{
			if (c < 0x10000u)
				o += (T)c;
			else
			{
				c -= 0x10000u;
				o += (T)(0xD800u + c / 0x400u);
				o += (T)(0xDC00u + c % 0x400u);
			}
		}
		else
		{
			if (c < 0x80u)
				o += (T)c;
			else if (c < 0x800u)
			{
				o += (T)(0xC0u + c / 64u);
				o += (T)(0x80u + c % 64u);
			}
			else if (c < 0x10000u)
			{
				o += (T)(0xE0u + c / 4096u);
				o += (T)(0x80u + c / 64u % 64u);
				o += (T)(0x80u + c % 64u);
			}
			else
			{
				o += (T)(0xF0u + c / 262144u);
				o += (T)(0x80u + c / 4096u % 64u);
				o += (T)(0x80u + c / 64u % 64u);
				o += (T)(0x80u + c % 64u);
			}
		}
	}

	template <typename T>
	std::basic_string<T> encode_all(const std::vector<uint32_t>& v)
	{
		std::basic_string<T> o;
		for (auto c : v)
			encode(c, o);
		return o;
	}
}
