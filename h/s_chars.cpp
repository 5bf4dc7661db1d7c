// S05 code point / code unit classification for every value of every character type.
#include "vf.h"
#include "unicode_ref.h"
#include <muu/strings.h>
#include <muu/chars.h>
using namespace muu;

namespace
{
	enum cls
	{
		letter,
		number,
		combining,
		lowercase,
		uppercase,
		whitespace,
		hyphen,
		classes
	};
	std::vector<uint8_t> tab(0x110000, 0);

	template <size_t N>
	void fill(cls k, const uref::range (&r)[N])
	{
		for (auto& x : r)
			for (uint32_t c = x.lo; c <= x.hi; c++)
				tab[c] |= (uint8_t)(1u << k);
	}
	bool in(cls k, uint64_t c)
	{
		return c < 0x110000 && (tab[c] >> k & 1);
	}

	struct row
	{
		const char* name;
		bool got, want;
	};

	bool limit_case; // tolerate the recorded supplementary-plane casing deviation (reported separately)

	template <typename C>
	void one(C ch, uint64_t v, int64_t tag)
	{
		constexpr size_t sz = sizeof(C);
		const bool a		= v < 0x80;
		// what the type can represent as a single code unit
		const bool cp  = sz == 1 ? a : sz == 2 ? !(v >= 0xD800 && v <= 0xDFFF) : v <= 0x10FFFF;
		const bool na  = cp && !a;
		auto all	   = [&](cls k) { return (sz != 1 || a) && in(k, v); };
		bool lo = all(lowercase), up = all(uppercase);
		if (v > 0xFFFF)
			lo = up = false, limit_case = true; // see case_supplementary
		const bool boundary = sz == 1 ? (v & 0xC0) != 0x80 : sz == 2 ? !(v >= 0xDC00 && v <= 0xDFFF) : v <= 0x10FFFF;
		const row rows[] = {
			{ "is_ascii_code_point", is_ascii_code_point(ch), a },
			{ "is_ascii_hyphen", is_ascii_hyphen(ch), a && in(hyphen, v) },
			{ "is_ascii_letter", is_ascii_letter(ch), a && in(letter, v) },
			{ "is_ascii_lowercase", is_ascii_lowercase(ch), a && lo },
			{ "is_ascii_number", is_ascii_number(ch), a && in(number, v) },
			{ "is_ascii_uppercase", is_ascii_uppercase(ch), a && up },
			{ "is_ascii_whitespace", is_ascii_whitespace(ch), a && in(whitespace, v) },
			{ "is_non_ascii_code_point", is_non_ascii_code_point(ch), na },
			{ "is_non_ascii_hyphen", is_non_ascii_hyphen(ch), na && in(hyphen, v) },
			{ "is_non_ascii_letter", is_non_ascii_letter(ch), na && in(letter, v) },
			{ "is_non_ascii_lowercase", is_non_ascii_lowercase(ch), na && lo },
			{ "is_non_ascii_number", is_non_ascii_number(ch), na && in(number, v) },
			{ "is_non_ascii_uppercase", is_non_ascii_uppercase(ch), na && up },
			{ "is_non_ascii_whitespace", is_non_ascii_whitespace(ch), na && in(whitespace, v) },
			{ "is_not_code_point", is_not_code_point(ch), !cp },
			{ "is_not_hyphen", is_not_hyphen(ch), !all(hyphen) },
			{ "is_not_letter", is_not_letter(ch), !all(letter) },
			{ "is_not_lowercase", is_not_lowercase(ch), !lo },
			{ "is_not_number", is_not_number(ch), !all(number) },
			{ "is_not_uppercase", is_not_uppercase(ch), !up },
			{ "is_not_whitespace", is_not_whitespace(ch), !all(whitespace) },
			{ "is_code_point", is_code_point(ch), cp },
			{ "is_code_point_boundary", is_code_point_boundary(ch), boundary },
			{ "is_combining_mark", is_combining_mark(ch), all(combining) },
			{ "is_decimal_digit", is_decimal_digit(ch), v >= '0' && v <= '9' },
			{ "is_hexadecimal_digit",
			  is_hexadecimal_digit(ch),
			  (v >= '0' && v <= '9') || (v >= 'a' && v <= 'f') || (v >= 'A' && v <= 'F') },
			{ "is_octal_digit", is_octal_digit(ch), v >= '0' && v <= '7' },
			{ "is_hyphen", is_hyphen(ch), all(hyphen) },
			{ "is_letter", is_letter(ch), all(letter) },
			{ "is_lowercase", is_lowercase(ch), lo },
			{ "is_number", is_number(ch), all(number) },
			{ "is_uppercase", is_uppercase(ch), up },
			{ "is_whitespace", is_whitespace(ch), all(whitespace) },
		};
		// supplementary planes: casing is judged by case_supplementary
		vf::at(tag, (int64_t)v);
		for (auto& r : rows)
		{
			vf::trans();
			if (v > 0xFFFF && v <= 0x10FFFF && (strstr(r.name, "case")))
				continue;
			VF_CHECK(r.got == r.want, "%s(U+%04llX) = %d, expected %d", r.name, (unsigned long long)v, r.got, r.want);
		}
		vf::state();
	}

	template <typename C>
	void wide(const char* g, int64_t tag)
	{
		vf::group(g);
		for (uint64_t v = 0; v <= 0x120000; v++)
			if (vf::mine(v >> 10))
				one((C)v, v, tag);
		// above the code space: every value one bit away from it, and the ends of the type
		for (int b = 17; b < 32; b++)
			for (uint64_t d : { 0ull, 0x20ull, 0x30ull, 0x41ull, 0x61ull, 0x2010ull, 0x3000ull, 0x10400ull, 0x10428ull })
			{
				const uint64_t v = (1ull << b) | d;
				if (v > 0x10FFFF && vf::mine(b))
					one((C)(uint32_t)v, v, tag);
			}
		for (uint64_t v = 0xFFFFFFFFull - 0x1000; v <= 0xFFFFFFFFull; v++)
			if (vf::mine(v))
				one((C)(uint32_t)v, v, tag);
		if (vf::thorough)
			for (uint64_t v = 0x110000; v <= 0xFFFFFFFFull; v += 1)
				if (vf::mine(v >> 20))
				{
					const C ch = (C)(uint32_t)v;
					vf::trans();
					if (is_code_point(ch) || is_letter(ch) || is_number(ch) || is_whitespace(ch) || is_hyphen(ch)
						|| is_lowercase(ch) || is_uppercase(ch) || is_combining_mark(ch) || is_ascii_code_point(ch)
						|| is_non_ascii_code_point(ch) || is_decimal_digit(ch) || is_hexadecimal_digit(ch)
						|| is_octal_digit(ch) || is_code_point_boundary(ch))
						vf::at(tag, (int64_t)v), vf::fail("value beyond the code space is classified as a character");
				}
		vf::sample("33 predicates on every 32-bit value 0..0x120000, bit neighbours above it and the end of the type");
	}

	// every supplementary-plane cased letter must be recognised. The tree's tests pin all of them to false; that exact
	// deviation is a recorded finding, anything else is reported per code point.
	template <typename C>
	void supplementary(const char* gl, const char* gu, int64_t tag)
	{
		for (int k = 0; k < 2; k++)
		{
			vf::group(k ? gu : gl);
			if (vf::shard != 0)
				continue;
			size_t bad = 0, missing = 0, total = 0;
			for (int pass = 0; pass < 2; pass++)
				for (uint32_t c = 0x10000; c <= 0x10FFFF; c++)
				{
					const bool want = in(k ? uppercase : lowercase, c);
					const C ch		= (C)c;
					const bool g	= k ? is_uppercase(ch) : is_lowercase(ch);
					const bool gn	= k ? is_non_ascii_uppercase(ch) : is_non_ascii_lowercase(ch);
					const bool gx	= k ? is_not_uppercase(ch) : is_not_lowercase(ch);
					const bool ga	= k ? is_ascii_uppercase(ch) : is_ascii_lowercase(ch);
					vf::trans();
					vf::at(tag, (int64_t)c);
					if (pass == 0)
					{
						total += want;
						missing += want && !g;
						VF_CHECK(gn == g && gx == !g && !ga, "U+%X: the casing predicates contradict each other", c);
						VF_CHECK(want || !g, "U+%X is not cased but recognised as such", c);
					}
					else if (missing != 0 && missing != total)
						VF_CHECK(g == want, "U+%X: casing not recognised", c);
				}
			(void)bad;
			if (missing && missing == total)
			{
				vf::at();
				vf::text(k ? "no supplementary-plane uppercase letter is recognised"
						   : "no supplementary-plane lowercase letter is recognised");
				vf::fail("all %zu cased letters above U+FFFF are classified as not cased", total);
			}
			vf::ctx.text = nullptr;
			vf::state(total);
		}
	}

	constexpr bool consteval_matches()
	{
		static_assert(is_letter('a') && !is_letter('1') && is_whitespace(U'\u3000') && is_uppercase(u'\u00C9')
					  && is_combining_mark(U'\u0301') && !is_code_point(u'\xD800') && is_code_point(U'\x10FFFF'));
		return true;
	}
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	static_assert(consteval_matches());
	fill(letter, uref::letter);
	fill(number, uref::number);
	fill(combining, uref::combining);
	fill(lowercase, uref::lowercase);
	fill(uppercase, uref::uppercase);
	fill(whitespace, uref::whitespace);
	fill(hyphen, uref::hyphen);
	if (vf::group("bytes"))
	{
		for (unsigned v = 0; v < 256; v++)
			if (vf::mine(v))
			{
				one((char)v, v, 0);
				one((unsigned char)v, v, 1);
#ifdef __cpp_char8_t
				one((char8_t)v, v, 2);
#endif
			}
		vf::sample("33 predicates x all 256 values of char, unsigned char, char8_t");
	}
	if (vf::group("char16_t"))
	{
		for (uint32_t v = 0; v < 0x10000; v++)
			if (vf::mine(v >> 6))
				one((char16_t)v, v, 3);
		vf::sample("33 predicates x all 65536 char16_t values");
	}
	wide<char32_t>("char32_t", 4);
	if (sizeof(wchar_t) == 4)
		wide<wchar_t>("wchar_t", 5);
	supplementary<char32_t>("lowercase_supplementary_char32_t", "uppercase_supplementary_char32_t", 4);
	supplementary<wchar_t>("lowercase_supplementary_wchar_t", "uppercase_supplementary_wchar_t", 5);
	if (vf::group("hex"))
	{
		for (unsigned v = 0; v < 256; v++)
		{
			auto chk = [&](auto zero, auto a, auto A)
			{
				using C = decltype(zero);
				vf::at(v, sizeof(C));
				vf::trans();
				const auto d = [&](unsigned n, C base) { return (C)(n < 10 ? (uint32_t)zero + n : (uint32_t)base + n - 10); };
				auto p = byte_to_hex<C>((uint8_t)v);
				VF_REQ(p.high == d(v / 16, a) && p.low == d(v % 16, a));
				p = byte_to_hex<C>((uint8_t)v, A);
				VF_REQ(p.high == d(v / 16, A) && p.low == d(v % 16, A));
				p = byte_to_hex<C>((std::byte)v);
				VF_REQ(p.high == d(v / 16, a) && p.low == d(v % 16, a));
				p = byte_to_hex<C>((std::byte)v, A);
				VF_REQ(p.high == d(v / 16, A) && p.low == d(v % 16, A));
				if (v < 16)
				{
					VF_REQ(dec_to_hex<C>(v) == d(v, a) && dec_to_hex<C>(v, A) == d(v, A));
					VF_REQ(hex_to_dec(d(v, a)) == v && hex_to_dec(d(v, A)) == v);
				}
			};
			chk('0', 'a', 'A');
			chk(L'0', L'a', L'A');
			chk(u'0', u'a', u'A');
			chk(U'0', U'a', U'A');
#ifdef __cpp_char8_t
			chk(u8'0', u8'a', u8'A');
#endif
			std::ostringstream ss;
			ss << byte_to_hex((uint8_t)v);
			char b[8];
			snprintf(b, 8, "%02x", v);
			VF_REQ(ss.str() == b);
			vf::state();
		}
		vf::sample("hex digit conversions for every byte value in 5 character types");
	}
	return vf::finish();
}
