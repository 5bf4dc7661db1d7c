// Straightforward FIPS 180-4 SHA-1 used as the oracle.
#pragma once
#include <array>
#include <cstdint>
#include <string>
#include <vector>
namespace ref
{
	inline std::array<uint8_t, 20> sha1(std::string m)
	{
		auto rol		  = [](uint32_t v, int n) { return (v << n) | (v >> (32 - n)); };
		uint32_t h[5]	  = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 };
		const uint64_t ml = (uint64_t)m.size() * 8;
		m += (char)0x80;
		while (m.size() % 64 != 56)
			m += '\0';
		for (int i = 7; i >= 0; i--)
			m += (char)(ml >> (8 * i));
		for (size_t c = 0; c < m.size(); c += 64)
		{
			uint32_t w[80];
			for (int i = 0; i < 16; i++)
			{
				w[i] = 0;
				for (int k = 0; k < 4; k++)
					w[i] = w[i] << 8 | (uint8_t)m[c + i * 4 + k];
			}
			for (int i = 16; i < 80; i++)
				w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
			uint32_t a = h[0], b = h[1], cc = h[2], d = h[3], e = h[4];
			for (int i = 0; i < 80; i++)
			{
				uint32_t f, k;
				if (i < 20)
					f = (b & cc) | (~b & d), k = 0x5A827999;
				else if (i < 40)
					f = b ^ cc ^ d, k = 0x6ED9EBA1;
				else if (i < 60)
					f = (b & cc) | (b & d) | (cc & d), k = 0x8F1BBCDC;
				else
					f = b ^ cc ^ d, k = 0xCA62C1D6;
				uint32_t t = rol(a, 5) + f + e + k + w[i];
				e = d, d = cc, cc = rol(b, 30), b = a, a = t;
			}
			h[0] += a, h[1] += b, h[2] += cc, h[3] += d, h[4] += e;
		}
		std::array<uint8_t, 20> o;
		for (int i = 0; i < 20; i++)
			o[i] = (uint8_t)(h[i / 4] >> (24 - 8 * (i % 4)));
		return o;
	}
	inline std::string hex(const uint8_t* p, size_t n)
	{
		std::string o;
		for (size_t i = 0; i < n; i++)
			for (int s : { 4, 0 })
				o += "0123456789abcdef"[(p[i] >> s) & 15];
		return o;
	}
}
