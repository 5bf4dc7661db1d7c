// S10 fnv1a, sha1, hash_combiner
#include "vf.h"
#include "utfref.h"
#include "sha1ref.h"
#include <muu/strings.h>
#include <muu/hashing.h>
using namespace muu;

namespace
{
	template <size_t Bits>
	struct num
	{
		using type = std::conditional_t<Bits == 32, uint32_t, uint64_t>;
	};
	template <>
	struct num<128>
	{
		using type = unsigned __int128;
	};
	template <size_t Bits>
	typename num<Bits>::type ref_fnv(const std::string& s)
	{
		using T = typename num<Bits>::type;
		T h, p;
		if constexpr (Bits == 32)
			h = 2166136261u, p = 16777619u;
		else if constexpr (Bits == 64)
			h = 14695981039346656037ull, p = 1099511628211ull;
		else
			h = ((T)0x6C62272E07BB0142ull << 64) | 0x62B821756295C58Dull, p = ((T)1 << 88) + 0x13B;
		for (char c : s)
			h = (h ^ (uint8_t)c) * p;
		return h;
	}
	template <typename T>
	std::string big_endian_hex(T v)
	{
		std::string o;
		for (int i = (int)sizeof(T) * 8 - 4; i >= 0; i -= 4)
			o += "0123456789abcdef"[(unsigned)(v >> i) & 15];
		return o;
	}

	// feeds bytes in one of the interfaces that take raw bytes
	template <typename H>
	void feed(H& h, const std::string& s, size_t b, size_t e, int how)
	{
		switch (how)
		{
			case 0:
				for (size_t i = b; i < e; i++)
					h((uint8_t)s[i]);
				break;
			case 1:
				for (size_t i = b; i < e; i++)
					h((std::byte)s[i]);
				break;
			case 2: h(s.data() + b, e - b); break;
			case 3: h(std::string_view{ s.data() + b, e - b }); break;
			case 4: h(std::u8string_view{ (const char8_t*)s.data() + b, e - b }); break;
		}
	}
	std::string text(size_t n, int salt)
	{
		std::string s;
		for (size_t i = 0; i < n; i++)
			s += (char)(i * 37 + salt * 101 + (i >> 3));
		return s;
	}

	template <size_t Bits>
	void fnv_bytes()
	{
		for (size_t n = 0; n <= 40; n++)
		{
			const auto s = text(n, (int)n);
			for (size_t cut = 0; cut <= n; cut++)
				for (int a = 0; a < 5; a++)
					for (int b = 0; b < 5; b++)
					{
						vf::at(Bits, n, cut, a, b);
						vf::trans();
						fnv1a<Bits> h;
						feed(h, s, 0, cut, a);
						auto copy = h;
						feed(h, s, cut, n, b);
						VF_CHECK(h.value() == ref_fnv<Bits>(s), "wrong hash");
						VF_CHECK(copy.value() == ref_fnv<Bits>(s.substr(0, cut)), "wrong prefix hash / copy not independent");
						vf::state();
					}
			std::ostringstream o;
			o << [&] { fnv1a<Bits> h; feed(h, s, 0, n, 2); return h; }();
			VF_CHECK(o.str() == big_endian_hex(ref_fnv<Bits>(s)), "printed as %s", o.str().c_str());
			std::wostringstream w;
			w << [&] { fnv1a<Bits> h; feed(h, s, 0, n, 2); return h; }();
			const auto hx = big_endian_hex(ref_fnv<Bits>(s));
			VF_CHECK(w.str() == std::wstring(hx.begin(), hx.end()), "printed differently on a wide stream");
		}
		for (unsigned v = 0; v < 0x10000; v++)
		{
			const char b[2] = { (char)(v >> 8), (char)v };
			vf::at(Bits, v);
			vf::trans();
			vf::state();
			const std::string s(b, 2);
			fnv1a<Bits> h;
			VF_CHECK(h(std::string_view{ s }).value() == ref_fnv<Bits>(s), "wrong hash of two bytes");
			if (v < 256)
			{
				fnv1a<Bits> g;
				VF_CHECK(g((uint8_t)v).value() == ref_fnv<Bits>(s.substr(1)), "wrong hash of one byte");
			}
		}
		constexpr auto c = []
		{
			fnv1a<Bits> h;
			h(uint8_t{ 1 })(std::byte{ 2 })(std::string_view{ "x\0y", 3 })(u"\u20AC")(U"\U0001F600")(L"w");
			return h.value();
		}();
		vf::at(Bits);
		VF_CHECK(c == ref_fnv<Bits>(std::string("\1\2x\0y\xE2\x82\xAC\xF0\x9F\x98\x80w", 13)), "compile-time hash differs");
	}

	template <typename H, typename C>
	void wide_one(const std::vector<uint32_t>& v)
	{
		const auto s = ref::encode_all<C>(v);
		std::vector<ref::rec> r;
		if (!ref::decode(std::basic_string_view<C>{ s }, r))
			return;
		std::string utf8;
		for (auto& x : r)
			ref::encode(x.cp, utf8);
		H a, b;
		a((uint8_t)7)(std::basic_string_view<C>{ s });
		b((uint8_t)7)(std::string_view{ utf8 });
		vf::trans();
		if constexpr (std::is_same_v<H, sha1>)
		{
			a.finish(), b.finish();
			VF_CHECK(memcmp(&a.value(), &b.value(), 20) == 0, "hash of %zu-byte code units differs from its UTF-8 text", sizeof(C));
		}
		else
			VF_CHECK(a.value() == b.value(), "hash of %zu-byte code units differs from its UTF-8 text", sizeof(C));
	}
	void wide_all(const std::vector<uint32_t>& v)
	{
		wide_one<fnv1a<32>, char16_t>(v);
		wide_one<fnv1a<64>, char32_t>(v);
		wide_one<fnv1a<128>, char16_t>(v);
		wide_one<fnv1a<32>, char32_t>(v);
		wide_one<fnv1a<64>, char16_t>(v);
		wide_one<fnv1a<64>, wchar_t>(v);
		wide_one<sha1, char16_t>(v);
		wide_one<sha1, char32_t>(v);
		wide_one<sha1, wchar_t>(v);
		vf::state();
	}

	bool same(const sha1& h, const std::string& s)
	{
		const auto want = ref::sha1(s);
		return memcmp(&h.value(), want.data(), 20) == 0;
	}
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	// the oracles themselves
	if (ref_fnv<32>("foobar") != 0xbf9cf968u || ref_fnv<64>("foobar") != 0x85944171f73967e8ull
		|| big_endian_hex(ref_fnv<128>("a")) != "d228cb696f1a8caf78912b704e4a8964"
		|| ref::hex(ref::sha1("abc").data(), 20) != "a9993e364706816aba3e25717850c26c9cd0d89d"
		|| ref::hex(ref::sha1("").data(), 20) != "da39a3ee5e6b4b0d3255bfef95601890afd80709")
		abort();

	if (vf::group("fnv_bytes"))
	{
		if (vf::mine(0))
			fnv_bytes<32>();
		if (vf::mine(1))
			fnv_bytes<64>();
		if (vf::mine(2))
			fnv_bytes<128>();
		vf::sample("all messages up to 2 bytes, messages up to 40 bytes with every split and 5x5 interfaces, 3 widths");
	}
	if (vf::group("text"))
	{
		const uint32_t a[] = { 0, 'a', 0x7F, 0x80, 0x7FF, 0x800, 0xFFFD, 0x10000, 0x10FFFF };
		static std::string label;
		uint64_t k = 0;
		std::function<void(std::vector<uint32_t>&, int)> rec = [&](std::vector<uint32_t>& v, int d)
		{
			if (vf::mine(k++))
			{
				label.clear();
				for (auto c : v)
					label += std::to_string(c) + ".";
				vf::text(label.c_str());
				wide_all(v);
			}
			if (d)
				for (auto c : a)
				{
					v.push_back(c);
					rec(v, d - 1);
					v.pop_back();
				}
		};
		std::vector<uint32_t> v;
		rec(v, vf::thorough ? 5 : 4);
		for (uint32_t c = 0; c <= 0x10FFFF; c++)
			if (ref::scalar(c) && vf::mine(c >> 4))
			{
				label = "U+" + std::to_string(c);
				vf::text(label.c_str());
				wide_one<fnv1a<64>, char16_t>({ 'x', c, 'y' });
				wide_one<fnv1a<32>, char32_t>({ 'x', c, 'y' });
				wide_one<fnv1a<128>, wchar_t>({ 'x', c });
				if (vf::thorough || c < 0x3000 || c >= 0x10000 - 16 && c < 0x10400)
					wide_one<sha1, char16_t>({ 'x', c, 'y' });
			}
		vf::ctx.text = nullptr;
		vf::sample("all words up to length 4 over 9 boundary code points, and every single code point, hashed as "
				   "UTF-16/32/wide text vs UTF-8");
	}
	if (vf::group("sha1_splits"))
	{
		for (size_t n = 0; n <= (vf::thorough ? 400 : 200); n++)
		{
			if (!vf::mine(n))
				continue;
			const auto s = text(n, (int)n);
			for (size_t cut = 0; cut <= n; cut++)
				for (int a = 0; a < 5; a++)
					for (int b = 0; b < 5; b++)
					{
						if (a != 2 && b != 2 && (a != b))
							continue;
						vf::at(n, cut, a, b);
						vf::trans();
						vf::state();
						sha1 h;
						feed(h, s, 0, cut, a);
						sha1 copy = h;
						feed(h, s, cut, n, b);
						auto& r = h.finish();
						VF_CHECK(&r == &h && same(h, s), "wrong digest");
						copy.finish();
						if (cut < 4 || cut % 16 == 0)
							VF_CHECK(same(copy, s.substr(0, cut)), "wrong digest of the copied prefix");
						// finished hashers ignore everything
						h((uint8_t)1)(std::byte{ 2 })("abc", 3)(std::string_view{ "defg" })(u"x");
						h.finish();
						VF_CHECK(same(h, s), "digest changed after finish()");
					}
			std::ostringstream o;
			sha1 h;
			h(s.data(), n).finish();
			o << h;
			vf::at(n);
			VF_CHECK(o.str() == ref::hex(ref::sha1(s).data(), 20), "printed as %s", o.str().c_str());
			std::wostringstream w;
			w << h;
			const auto hx = ref::hex(ref::sha1(s).data(), 20);
			VF_CHECK(w.str() == std::wstring(hx.begin(), hx.end()), "printed differently on a wide stream");
		}
		vf::sample("messages of every length 0..200, every split point, 5 byte interfaces before and after it; copies; "
				   "use after finish");
	}
	if (vf::group("sha1_triples"))
	{
		for (size_t n = 50; n <= 140; n++)
			if (vf::mine(n))
			{
				const auto s = text(n, 3);
				for (size_t i = 0; i <= n; i++)
					for (size_t j = i; j <= n; j++)
					{
						vf::at(n, i, j);
						vf::trans();
						vf::state();
						sha1 h;
						h(s.data(), i)(s.data() + i, j - i)(s.data() + j, n - j);
						VF_CHECK(same(h.finish(), s), "wrong digest");
					}
			}
		for (size_t n : { 55u, 56u, 63u, 64u, 65u, 119u, 120u, 128u, 183u, 184u, 300u, 1000u })
			for (size_t chunk = 1; chunk <= 130; chunk++)
				if (vf::mine(chunk))
				{
					vf::at(n, chunk);
					const auto s = text(n, 9);
					sha1 h;
					for (size_t i = 0; i < n; i += chunk)
						h(s.data() + i, std::min(chunk, n - i));
					VF_CHECK(same(h.finish(), s), "wrong digest");
					vf::state();
				}
		vf::sample("messages of length 50..140 in three chunks at every pair of cut points; chunk sizes 1..130");
	}
	if (vf::group("sha1_content"))
	{
		for (unsigned v = 0; v < 0x10000; v++)
			if (vf::mine(v >> 4))
			{
				const char b[2] = { (char)(v >> 8), (char)v };
				const std::string s(b, 2);
				vf::at(v);
				vf::trans();
				vf::state();
				sha1 h;
				VF_CHECK(same(h(std::string_view{ s }).finish(), s), "wrong digest of two bytes");
			}
		for (int bit = 0; bit < 64 * 8; bit++)
			if (vf::mine(bit))
			{
				std::string s(64, '\0');
				s[bit / 8] = (char)(1 << (bit % 8));
				std::string i(64, '\xFF');
				i[bit / 8] ^= (char)(1 << (bit % 8));
				vf::at(bit, -1);
				vf::state();
				sha1 a, b;
				VF_CHECK(same(a(s.data(), 64).finish(), s), "wrong digest");
				VF_CHECK(same(b(i.data(), 64).finish(), i), "wrong digest");
			}
		if (vf::shard == 0)
		{
			sha1 h;
			h(nullptr, 0)(std::string_view{})("x", 0);
			VF_CHECK(same(h.finish(), ""), "empty pieces change the digest");
			const auto big = text(1 << 20, 5);
			sha1 g;
			g(big.data(), big.size());
			VF_CHECK(same(g.finish(), big), "wrong digest of a 1 MiB message");
		}
		vf::sample("all 2-byte messages, all 64-byte messages with one bit set / clear, empty pieces, 1 MiB");
	}
	if (vf::group("combiner"))
	{
		// one step is injective in the new hash and in sequence sensitive; the same steps give the same value
		for (unsigned seed : { 0u, 1u, 0x7FFFu, 0x8000u, 0xFFFFu, 0x1234u, 0x9E37u, 0xABCDu })
		{
			if (!vf::mine(seed))
				continue;
			std::vector<bool> seen(0x10000);
			for (unsigned n = 0; n < 0x10000; n++)
			{
				vf::at(seed, n);
				vf::trans();
				hash_combiner<16> a{ (uint16_t)seed }, b{ (uint16_t)seed };
				a((uint16_t)n), b((uint16_t)n);
				VF_CHECK(a.value() == b.value(), "not deterministic");
				VF_CHECK(!seen[a.value()], "two different hashes combine to the same value");
				seen[a.value()] = true;
			}
			vf::state();
		}
		if (vf::shard == 0)
		{
			constexpr auto c = hash_combiner<64>{ 5u }(6u)(7u).value();
			hash_combiner<64> r{ 5u };
			r(6u)(7u);
			VF_CHECK(r.value() == c, "compile-time and run-time values differ");
			VF_CHECK(hash_combiner<32>{ 5u }(6u)(7u).value() != hash_combiner<32>{ 5u }(7u)(6u).value()
						 && hash_combiner<64>{ 5u }(6u)(7u).value() != hash_combiner<64>{ 5u }(7u)(6u).value()
						 && hash_combiner<128>{ 5u }(6u)(7u).value() != hash_combiner<128>{ 5u }(7u)(6u).value(),
					 "the order of hashes does not matter");
			VF_CHECK(hash_combiner<32>{ 5u }.value() == 5u && hash_combiner<64>{ 5u }.value() == 5u, "seed");
		}
		vf::sample("hash_combiner<16>: injectivity over all 65536 hashes for 8 seeds; determinism");
	}
	return vf::finish();
}
