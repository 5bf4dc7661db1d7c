// S09 uuid
#include "vf.h"
#include "utfref.h"
#include "sha1ref.h"
#include <muu/strings.h>
#include <muu/hashing.h>
#include <muu/uuid.h>
#include <iomanip>
#include <thread>
#include <random>
using namespace muu;

// the only source of randomness behind uuid::generate() on this platform: chosen by the harness
static unsigned entropy_seed, entropy_calls;
unsigned entropy()
{
	unsigned x = entropy_seed + 0x9E3779B9u * entropy_calls++;
	x ^= x >> 16, x *= 0x7feb352du, x ^= x >> 15, x *= 0x846ca68bu, x ^= x >> 16;
	return x;
}
namespace std
{
	random_device::result_type random_device::_M_getval()
	{
		return ::entropy(); // not the member of that name
	}
}

namespace
{
	using arr = std::array<uint8_t, 16>;

	arr raw(const uuid& u)
	{
		arr a;
		memcpy(a.data(), &u, 16);
		return a;
	}
	uuid from(const arr& a)
	{
		uuid u{ nullptr };
		for (int i = 0; i < 16; i++)
			u.bytes[i] = (std::byte)a[i];
		return u;
	}
	std::string canon(const arr& a)
	{
		std::string o;
		for (int i = 0; i < 16; i++)
		{
			char b[3];
			snprintf(b, 3, "%02X", a[i]);
			o += b;
			if (i == 3 || i == 5 || i == 7 || i == 9)
				o += '-';
		}
		return o;
	}
	void is(const uuid& u, const arr& want, const char* what)
	{
		vf::trans();
		VF_CHECK(raw(u) == want, "%s gave %s, expected %s", what, canon(raw(u)).c_str(), canon(want).c_str());
	}

	// ------------------------------------------------------------------------------------------------ fields
	arr layout(uint64_t tl, uint64_t tm, uint64_t th, uint64_t cs, uint64_t node)
	{
		arr a;
		for (int i = 0; i < 4; i++)
			a[i] = (uint8_t)(tl >> (24 - 8 * i));
		for (int i = 0; i < 2; i++)
			a[4 + i] = (uint8_t)(tm >> (8 - 8 * i)), a[6 + i] = (uint8_t)(th >> (8 - 8 * i)),
				  a[8 + i] = (uint8_t)(cs >> (8 - 8 * i));
		for (int i = 0; i < 6; i++)
			a[10 + i] = (uint8_t)(node >> (40 - 8 * i));
		return a;
	}
	void look(const uuid& u, const arr& a)
	{
		auto num = [&](int b, int n)
		{
			uint64_t v = 0;
			for (int i = 0; i < n; i++)
				v = v << 8 | a[b + i];
			return v;
		};
		VF_CHECK(u.time_low() == num(0, 4) && u.time_mid() == num(4, 2) && u.time_high_and_version() == num(6, 2)
					 && u.clock_seq_high_and_reserved() == a[8] && u.clock_seq_low() == a[9] && u.node() == num(10, 6),
				 "field accessors of %s", canon(a).c_str());
		const int v			  = a[6] >> 4;
		const uuid_version ev = v <= 5 ? (uuid_version)v : uuid_version::unknown;
		VF_CHECK(u.version() == ev, "version() of %s is %d", canon(a).c_str(), (int)u.version());
		const int t			  = a[8] >> 5;
		const uuid_variant ea = t == 0				 ? uuid_variant::none
							  : t <= 3				 ? uuid_variant::reserved_ncs
							  : (t == 4 || t == 5) ? uuid_variant::standard
							  : t == 6			 ? uuid_variant::reserved_microsoft
													 : uuid_variant::reserved_future;
		VF_CHECK(u.variant() == ea, "variant() of %s is %d", canon(a).c_str(), (int)u.variant());
		bool any = false;
		for (auto b : a)
			any = any || b;
		VF_CHECK((bool)u == any, "operator bool of %s", canon(a).c_str());
#if MUU_HAS_INT128
		unsigned __int128 w = 0;
		for (auto b : a)
			w = w << 8 | b;
		VF_CHECK((uint128_t)u == w, "conversion to uint128 of %s", canon(a).c_str());
		VF_CHECK(raw(uuid{ (uint128_t)w }) == a, "conversion from uint128 of %s", canon(a).c_str());
#endif
		vf::trans(9);
	}
	void fields()
	{
		const uint64_t bg[] = { 0, ~0ull, 0x0123456789ABCDEFull };
		for (int b = 0; b < 3; b++)
		{
			auto full = [&](uint64_t tl, uint64_t tm, uint64_t th, uint64_t cs, uint64_t node)
			{
				const arr a = layout(tl, tm, th, cs, node);
				const uuid u{ (uint32_t)tl, (uint16_t)tm, (uint16_t)th, (uint16_t)cs, node };
				is(u, a, "5-field constructor");
				const uuid v{ (uint32_t)tl, (uint16_t)tm, (uint16_t)th, (uint8_t)(cs >> 8), (uint8_t)cs, node };
				is(v, a, "6-field constructor");
				look(u, a);
				vf::state();
			};
			const uint64_t g = bg[b];
			for (unsigned v = 0; v < 0x10000; v++)
			{
				if (!vf::mine(v >> 4))
					continue;
				vf::at(b, 0, v);
				full(v, g, g, g, g);
				vf::at(b, 1, v);
				full((uint64_t)v << 16, g, g, g, g);
				vf::at(b, 2, v);
				full(g, v, g, g, g);
				vf::at(b, 3, v);
				full(g, g, v, g, g);
				vf::at(b, 4, v);
				full(g, g, g, v, g);
				for (int s = 0; s < 64; s += 8)
				{
					vf::at(b, 5 + s, v);
					full(g, g, g, g, (uint64_t)v << s);
				}
			}
		}
		vf::sample("every 16-bit value of each field on three backgrounds, both field constructors, all accessors, "
				   "version, variant, uint128 both ways");
		if (vf::shard == 0)
		{
			vf::at(-1);
			is(uuid{ nullptr }, arr{}, "nil constructor");
			is(uuid::constants::nil, arr{}, "nil constant");
			auto ns = [](uint8_t k)
			{ return arr{ 0x6B, 0xA7, 0xB8, k, 0x9D, 0xAD, 0x11, 0xD1, 0x80, 0xB4, 0x00, 0xC0, 0x4F, 0xD4, 0x30, 0xC8 }; };
			is(uuid::constants::namespace_dns, ns(0x10), "namespace_dns");
			is(uuid::constants::namespace_url, ns(0x11), "namespace_url");
			is(uuid::constants::namespace_oid, ns(0x12), "namespace_oid");
			is(uuid::constants::namespace_x500, ns(0x14), "namespace_x500");
		}
	}

	// ------------------------------------------------------------------------------------------------ compare
	void compare()
	{
		std::vector<arr> set;
		const uint8_t vals[] = { 0x00, 0x01, 0x7F, 0x80, 0xFF };
		for (int bgi = 0; bgi < 2; bgi++)
			for (int i = 0; i < 16; i++)
				for (int j = i; j < 16; j++)
					for (uint8_t v : vals)
						for (uint8_t w : vals)
						{
							if (!vf::thorough && (v == 0x01 || w == 0x7F || (bgi && v != w)))
								continue;
							arr a;
							a.fill(bgi ? 0x80 : 0);
							a[i] = v, a[j] = w;
							set.push_back(a);
						}
		std::sort(set.begin(), set.end());
		set.erase(std::unique(set.begin(), set.end()), set.end());
		std::vector<uuid> us;
		for (auto& a : set)
			us.push_back(from(a));
		for (size_t i = 0; i < set.size(); i++)
		{
			if (!vf::mine(i))
				continue;
			for (size_t j = 0; j < set.size(); j++)
			{
				vf::ctx.tick = vf::ctx.tick + 1;
				vf::ctx.arg[0] = i, vf::ctx.arg[1] = j, vf::ctx.nargs = 2;
				const int c	 = (i > j) - (i < j); // sorted bytewise, unique
				const uuid &a = us[i], &b = us[j];
				const int g = uuid::compare(a, b);
				vf::trans(7);
				VF_CHECK((g > 0) - (g < 0) == c && (a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0)
							 && (a <= b) == (c <= 0) && (a > b) == (c > 0) && (a >= b) == (c >= 0),
						 "%s vs %s: expected %d, compare gives %d", canon(set[i]).c_str(), canon(set[j]).c_str(), c, g);
				if (i == j)
				{
					const uuid k = a;
					VF_CHECK(k == a && !(k != a) && uuid::compare(k, a) == 0 && std::hash<uuid>{}(k) == std::hash<uuid>{}(a),
							 "equal values at different addresses");
				}
			}
			vf::state();
		}
		vf::sample("all ordered pairs of %zu uuids varying two bytes over boundary values", set.size());
		if (vf::shard == 0)
		{
			std::set<size_t> hs;
			arr z{};
			hs.insert(std::hash<uuid>{}(from(z)));
			for (int b = 0; b < 128; b++)
			{
				arr a{};
				a[b / 8] = (uint8_t)(1 << b % 8);
				hs.insert(std::hash<uuid>{}(from(a)));
			}
			vf::at(-1);
			VF_CHECK(hs.size() == 129, "hashes of uuids one bit apart collide");
		}
	}

	// ------------------------------------------------------------------------------------------------ parse
	// reference grammar: blanks and at most one '{', 32 hex digits with blanks or hyphens allowed between whole
	// octets, then blanks and a '}' exactly when there was a '{'
	bool ws(uint32_t c)
	{
		return (c >= 9 && c <= 13) || c == ' ';
	}
	int hexv(uint32_t c)
	{
		return c >= '0' && c <= '9' ? (int)c - '0' : c >= 'a' && c <= 'f' ? (int)c - 'a' + 10 : c >= 'A' && c <= 'F' ? (int)c - 'A' + 10 : -1;
	}
	bool ref_parse(const std::vector<uint32_t>& s, arr& out)
	{
		size_t i  = 0;
		bool open = false;
		out.fill(0);
		for (; i < s.size() && hexv(s[i]) < 0; i++)
		{
			if (s[i] == '{' && !open)
				open = true;
			else if (!ws(s[i]))
				return false;
		}
		int d = 0;
		for (; i < s.size() && d < 32; i++)
		{
			const int h = hexv(s[i]);
			if (h >= 0)
			{
				out[d / 2] = (uint8_t)(out[d / 2] << 4 | h);
				d++;
			}
			else if (!(ws(s[i]) || s[i] == '-') || d % 2)
				return false;
		}
		if (d != 32)
			return false;
		bool closed = false;
		for (; i < s.size(); i++)
		{
			if (s[i] == '}' && open && !closed)
				closed = true;
			else if (!ws(s[i]))
				return false;
		}
		return open == closed;
	}
	std::string label;
	template <typename C>
	void parse1(const std::vector<uint32_t>& s, bool want, const arr& a)
	{
		const auto t = ref::encode_all<C>(s);
		const auto r = uuid::parse(std::basic_string_view<C>{ t });
		vf::trans();
		VF_CHECK(r.has_value() == want, "%zu-byte units: parsed %d, expected %d", sizeof(C), r.has_value(), want);
		if (r && want)
			VF_CHECK(raw(*r) == a, "%zu-byte units: parsed as %s", sizeof(C), canon(raw(*r)).c_str());
	}
	void parse_all(const std::vector<uint32_t>& s)
	{
		arr a;
		const bool want = ref_parse(s, a);
		label.clear();
		for (auto c : s)
			if (c > 32 && c < 127)
				label += (char)c;
			else
				label += "<" + std::to_string(c) + ">";
		vf::text(label.c_str());
		parse1<char>(s, want, a);
		parse1<char16_t>(s, want, a);
		parse1<char32_t>(s, want, a);
		parse1<wchar_t>(s, want, a);
#ifdef __cpp_char8_t
		parse1<char8_t>(s, want, a);
#endif
		vf::state();
	}
	void parse()
	{
		const std::string digits = "0123456789abcdefABCDEF0918273645";
		std::vector<uint32_t> base(digits.begin(), digits.end());
		const std::vector<uint32_t> extra = { ' ', '-', '{', '}', 'a', '7', 'g', '\t', 0, 0xE9, 0x2010, 0x1F600, '@', 'G', '`', '/', ':', '_' };
		uint64_t k						  = 0;
		parse_all(base);
		// one and two insertions anywhere
		for (size_t i = 0; i <= base.size(); i++)
			for (auto c : extra)
			{
				auto s = base;
				s.insert(s.begin() + i, c);
				if (vf::mine(k++))
					parse_all(s);
				for (size_t j = i; j <= s.size(); j++)
				{
					if (!vf::mine(k++))
						continue;
					for (auto d : extra)
					{
						auto t = s;
						t.insert(t.begin() + j, d);
						parse_all(t);
					}
				}
			}
		vf::sample("a digit string with every 1 and 2 insertions of 18 characters at every position, 5 string types");
		// every substitution by every code point below U+180, one digit position at a time, braces and hyphens present
		std::vector<uint32_t> full;
		full.push_back('{');
		for (size_t i = 0; i < 32; i++)
		{
			full.push_back(base[i]);
			if (i == 7 || i == 11 || i == 15 || i == 19)
				full.push_back('-');
		}
		full.push_back('}');
		parse_all(full);
		for (size_t i = 0; i < full.size(); i++)
		{
			if (!vf::mine(i))
				continue;
			for (uint32_t c = 0; c < 0x180; c++)
			{
				auto s = full;
				s[i]   = c;
				parse_all(s);
			}
			for (size_t j = i; j < full.size(); j++)
			{
				auto s = full;
				s.erase(s.begin() + j);
				if (j != i)
					s.erase(s.begin() + i);
				parse_all(s);
				auto t = full;
				std::swap(t[i], t[j]);
				parse_all(t);
			}
			parse_all({ full.begin(), full.begin() + i });
			parse_all({ full.begin() + i, full.end() });
		}
		vf::sample("the canonical braced form with every single substitution (384 characters), every 2 deletions and "
				   "transpositions, every prefix and suffix");
		// every combination of padding around the pieces
		const std::vector<std::string> pads = { "", " ", "-", "{", "}", "\t\n", "{ ", " {", "} ", " }", "--", "- ", "{{", "}}" };
		for (size_t p = 0; p < pads.size(); p++)
			for (size_t q = 0; q < pads.size(); q++)
				for (size_t r = 0; r < pads.size(); r++)
					if (vf::mine(k++))
					{
						std::string s = pads[p] + digits.substr(0, 16) + pads[q] + digits.substr(16) + pads[r];
						parse_all({ s.begin(), s.end() });
						s = pads[p] + digits.substr(0, 15) + pads[q] + digits.substr(15) + pads[r];
						parse_all({ s.begin(), s.end() });
					}
		// nothing but short text, and runs of one character
		for (size_t n = 0; n <= 70; n++)
			for (uint32_t c : { 'a', '0', '-', ' ', '{', '}', 'g' })
				if (vf::mine(k++))
					parse_all(std::vector<uint32_t>(n, c));
		// ill-formed UTF-8 is never a uuid
		for (size_t i = 0; i <= 32; i++)
			for (unsigned b = 0x80; b < 0x100; b++)
				if (vf::mine(i))
				{
					std::string s = digits;
					s.insert(s.begin() + i, (char)b);
					label = "byte " + std::to_string(b) + " at " + std::to_string(i);
					vf::text(label.c_str());
					VF_CHECK(!uuid::parse(std::string_view{ s }), "parsed text with an ill-formed byte");
					vf::trans();
				}
		vf::sample("padding, brace and hyphen combinations around and inside the digits; ill-formed bytes");
		vf::ctx.text = nullptr;
	}

	// ------------------------------------------------------------------------------------------------ print
	void print()
	{
		for (int i = 0; i < 16; i++)
			for (unsigned v = 0; v < 256; v++)
				for (int b = 0; b < 3; b++)
				{
					if (!vf::mine(v))
						continue;
					arr a;
					for (int k = 0; k < 16; k++)
						a[k] = b == 0 ? 0 : b == 1 ? 0xFF : (uint8_t)(k * 0x11);
					a[i] = (uint8_t)v;
					vf::at(i, v, b);
					vf::state();
					const uuid u = from(a);
					std::ostringstream o;
					o << u;
					std::wostringstream w;
					w << u;
					const auto c = canon(a);
					vf::trans(4);
					VF_CHECK(o.str() == c, "printed as %s, expected %s", o.str().c_str(), c.c_str());
					VF_CHECK(w.str() == std::wstring(c.begin(), c.end()), "printed differently on a wide stream");
					const auto r = uuid::parse(o.str());
					VF_CHECK(r && *r == u, "printed text does not parse back");
					const auto s = uuid::parse(w.str());
					VF_CHECK(s && *s == u, "wide printed text does not parse back");
					if (v == 0x5A)
						for (int pad = 30; pad <= 44; pad++)
						{
							std::ostringstream l, rr;
							l << std::left << std::setfill('*') << std::setw(pad) << u << "|";
							rr << std::right << std::hex << std::setfill('*') << std::setw(pad) << u << "|";
							const std::string f(pad > 36 ? pad - 36 : 0, '*');
							VF_CHECK(l.str() == c + f + "|" && rr.str() == f + c + "|", "field width %d is not applied to the whole text", pad);
						}
				}
		vf::sample("every value of every byte on three backgrounds printed narrow and wide and parsed back; field widths");
	}

	// ------------------------------------------------------------------------------------------------ named
	void named()
	{
		const uuid spaces[] = { uuid::constants::nil, uuid::constants::namespace_dns, uuid::constants::namespace_url,
								from({ 0xFF, 0xFE, 0x80, 0x7F, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11 }) };
		auto check = [&](const uuid& ns, const std::string& name)
		{
			const auto nb = raw(ns);
			const auto h  = ref::sha1(std::string((const char*)nb.data(), 16) + name);
			arr a;
			memcpy(a.data(), h.data(), 16);
			a[6] = (uint8_t)((a[6] & 0x0F) | 0x50);
			a[8] = (uint8_t)((a[8] & 0x3F) | 0x80);
			is(uuid{ ns, name.data(), name.size() }, a, "name from bytes");
			is(uuid{ ns, std::string_view{ name } }, a, "name from string_view");
#ifdef __cpp_char8_t
			is(uuid{ ns, std::u8string_view{ (const char8_t*)name.data(), name.size() } }, a, "name from u8string_view");
#endif
			const uuid u{ ns, std::string_view{ name } };
			VF_CHECK(u.version() == uuid_version::name_sha1 && u.variant() == uuid_variant::standard, "version or variant");
			vf::state();
		};
		for (int s = 0; s < 4; s++)
		{
			for (int n = 0; n <= 150; n++)
				if (vf::mine(n))
				{
					std::string t;
					for (int i = 0; i < n; i++)
						t += (char)(i * 31 + s);
					vf::at(s, n);
					check(spaces[s], t);
				}
			for (unsigned v = 0; v < 0x10000; v++)
				if (vf::mine(v >> 4) && (s == 1 || v < 256))
				{
					vf::at(s, -1, v);
					const char b[2] = { (char)v, (char)(v >> 8) };
					check(spaces[s], std::string(b, v < 256 ? 1 : 2));
				}
			if (vf::shard == 0)
			{
				vf::at(s, -2);
				const auto want = raw(uuid{ spaces[s], std::string_view{ "" } });
				is(uuid{ spaces[s], nullptr, 0 }, want, "null name");
				is(uuid{ spaces[s], std::string_view{} }, want, "empty name");
			}
		}
		vf::sample("names of length 0..150 and all 1- and 2-byte names in four namespaces against an independent SHA-1");
	}

	// ------------------------------------------------------------------------------------------------ generate
	void generate()
	{
		arr all_or{}, all_and;
		all_and.fill(0xFF);
		std::set<arr> seen;
		const int seeds = vf::thorough ? 20000 : 2000;
		for (int s = 0; s < seeds; s++)
		{
			if (!vf::mine(s))
				continue;
			vf::at(s);
			entropy_seed  = (unsigned)s;
			entropy_calls = 0;
			std::vector<arr> got;
			std::thread th(
				[&]
				{
					for (int i = 0; i < 20; i++)
					{
						const uuid u = uuid::generate();
						got.push_back(raw(u));
					}
				});
			th.join();
			for (auto& a : got)
			{
				vf::trans();
				const uuid u = from(a);
				VF_CHECK(u.version() == uuid_version::random && u.variant() == uuid_variant::standard && (bool)u,
						 "generated %s is not a version 4 uuid", canon(a).c_str());
				VF_CHECK(seen.insert(a).second, "generated %s twice", canon(a).c_str());
				for (int i = 0; i < 16; i++)
					all_or[i] |= a[i], all_and[i] &= a[i];
			}
			vf::state();
		}
		arr wo, wa{};
		wo.fill(0xFF);
		wo[6] = 0x4F, wo[8] = 0xBF;
		wa[6] = 0x40, wa[8] = 0x80;
		vf::at(-1);
		VF_CHECK(all_or == wo && all_and == wa, "bits that never vary: or %s and %s", canon(all_or).c_str(), canon(all_and).c_str());
		vf::sample("uuid::generate on fresh threads for every seed of the entropy source in a range, 20 draws each");
	}
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	static_assert(uuid{ 0x01020304u, uint16_t{ 0x0506 }, uint16_t{ 0x0708 }, uint16_t{ 0x090A }, uint64_t{ 0x0B0C0D0E0F10 } }
					  .time_low()
				  == 0x01020304u);
	static_assert(uuid::parse("{06B35EFD-A532-4410-ADD1-C8C536C31A84}").has_value());
	static_assert(uuid::parse("{06B35EFD-A532-4410-ADD1-C8C536C31A84}")->node() == 0xC8C536C31A84ull);
	static_assert(!uuid::parse("{06B35EFD-A532-4410-ADD1-C8C536C31A84").has_value());
	static_assert("06B35EFDA5324410ADD1C8C536C31A84"_uuid.time_mid() == 0xA532);
	if (vf::group("fields"))
		fields();
	if (vf::group("compare"))
		compare();
	if (vf::group("parse"))
		parse();
	if (vf::group("print"))
		print();
	if (vf::group("named"))
		named();
	if (vf::group("generate"))
		generate();
	return vf::finish();
}
