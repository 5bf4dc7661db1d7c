// N01 / N02: muu::half. All 2^16 halves, all 2^32 floats; operators over (all x boundary) or (all x all).
#include "muu/half.h"
#include "vf.h"
#include <cmath>
#include <limits>
#include <sstream>
#include <array>

using muu::half;
using namespace muu::literals;

static uint64_t mine_n = 0;
static bool mine_()
{
	return vf::mine(mine_n++);
}
static uint16_t bits(half h)
{
	uint16_t b;
	static_assert(sizeof(half) == 2);
	memcpy(&b, &h, 2);
	return b;
}
static uint32_t fbits(float f)
{
	uint32_t b;
	memcpy(&b, &f, 4);
	return b;
}
static float fl(uint32_t b)
{
	float f;
	memcpy(&f, &b, 4);
	return f;
}
static bool hnan(uint16_t b) { return (b & 0x7c00) == 0x7c00 && (b & 0x3ff); }
static bool hinf(uint16_t b) { return (b & 0x7fff) == 0x7c00; }

// reference: exact value of a half
static double ref_val(uint16_t b)
{
	int e = (b >> 10) & 31, m = b & 0x3ff;
	double v;
	if (e == 31)
		v = m ? NAN : INFINITY;
	else if (!e)
		v = std::ldexp((double)m, -24);
	else
		v = std::ldexp((double)(m | 0x400), e - 25);
	return (b & 0x8000) ? -v : v;
}
// reference: nearest half, ties to even, from an integer significand m (any) * 2^e
static uint16_t ref_round(bool neg, unsigned __int128 m, int e, bool sticky)
{
	uint16_t s = neg ? 0x8000 : 0;
	if (!m && !sticky)
		return s;
	// value in units of 2^-24 : m * 2^(e+24)
	int msb = -1;
	for (int i = 127; i >= 0; i--)
		if ((m >> i) & 1)
		{
			msb = i;
			break;
		}
	int top	 = msb + e;				 // value in [2^top, 2^(top+1))
	int ulp	 = top < -14 ? -24 : top - 10; // exponent of one unit in the last place
	int drop = ulp - e;
	unsigned __int128 q;
	bool up = false;
	if (drop <= 0)
	{
		if (-drop > 100)
			return s | 0x7c00;
		q = m << -drop;
	}
	else if (drop > 127)
		q = 0;
	else
	{
		q						  = m >> drop;
		unsigned __int128 rem	  = m & (((unsigned __int128)1 << drop) - 1);
		unsigned __int128 halfway = (unsigned __int128)1 << (drop - 1);
		up						  = rem > halfway || (rem == halfway && (sticky || (q & 1)));
	}
	if (up)
		q++;
	// q * 2^ulp
	if (ulp == -24 && q < 0x400)
		return s | (uint16_t)q;
	int ee = ulp;
	if (q == 0x800)
	{
		q >>= 1;
		ee++;
	}
	int be = ee + 25;
	if (be >= 31)
		return s | 0x7c00;
	return s | (uint16_t)(be << 10) | (uint16_t)(q & 0x3ff);
}
static uint16_t ref_from_double(double d)
{
	uint64_t b;
	memcpy(&b, &d, 8);
	bool neg = b >> 63;
	int e	 = (b >> 52) & 0x7ff;
	uint64_t m = b & ((1ull << 52) - 1);
	if (e == 0x7ff)
		return (neg ? 0x8000 : 0) | (m ? 0x7e00 : 0x7c00);
	if (e)
		m |= 1ull << 52;
	else
		e = 1;
	return ref_round(neg, m, e - 1075, false);
}
static uint16_t ref_from_ld(long double l)
{
	if (l != l || std::isinf(l) || l == 0)
		return ref_from_double((double)l);
	int e;
	long double f = std::frexp(l < 0 ? -l : l, &e);
	return ref_round(l < 0, (uint64_t)std::ldexp(f, 64), e - 64, false);
}
// fast variant for floats, from bits (checked against ref_from_double on the boundary set)
static inline uint16_t ref_from_float(uint32_t b)
{
	uint16_t s = (b >> 16) & 0x8000;
	int e	   = (b >> 23) & 255;
	uint32_t m = b & 0x7fffff;
	if (e == 255)
		return s | (m ? 0x7e00 : 0x7c00);
	if (e >= 143)
		return s | 0x7c00;
	int shift;
	uint32_t base;
	if (e >= 113)
	{
		shift = 13;
		base  = (uint32_t)(e - 113) << 10;
		m |= 0x800000;
		// (m >> 13) contributes 0x400, i.e. one exponent step: base is for e-113 then
	}
	else
	{
		if (!e)
			return s;
		shift = 126 - e;
		base  = 0;
		m |= 0x800000;
		if (shift > 25)
			return s;
	}
	uint32_t q = m >> shift, rem = m & ((1u << shift) - 1), h = 1u << (shift - 1);
	if (rem > h || (rem == h && (q & 1)))
		q++;
	uint32_t r = base + q;
	if (r > 0x7c00)
		r = 0x7c00;
	return s | (uint16_t)r;
}
static bool same(uint16_t got, uint16_t want)
{
	return hnan(want) ? hnan(got) : got == want;
}
static std::vector<uint16_t> boundary()
{
	std::vector<uint16_t> r;
	for (int s = 0; s < 2; s++)
		for (int e = 0; e < 32; e++)
			for (int m : { 0, 1, 0x155, 0x1ff, 0x200, 0x201, 0x3fe, 0x3ff })
				r.push_back((uint16_t)(s << 15 | e << 10 | m));
	return r;
}
static const uint32_t emant[] = { 0,	   1,		0x0fff,	  0x1000,	0x1001,	  0x1fff,	0x2000, 0x2001, 0x2fff, 0x3000,
								  0x3001,  0x5000,	0x7000,	  0x155555, 0x3fffff, 0x400000, 0x400001, 0x7fdfff, 0x7fe000,
								  0x7fefff, 0x7ff000, 0x7ff001, 0x7fffff };
static constexpr uint32_t cmant[] = { 0,	   1,		0x0fff,	  0x1000,	0x1001,	  0x1fff,	0x2000, 0x2001, 0x2fff, 0x3000,
									  0x3001,  0x5000,	0x7000,	  0x155555, 0x3fffff, 0x400000, 0x400001, 0x7fdfff, 0x7fe000,
									  0x7fefff, 0x7ff000, 0x7ff001, 0x7fffff };
static constexpr size_t NM = sizeof(cmant) / 4;
static constexpr uint32_t cpat(size_t i)
{
	return (uint32_t)(i & 1) << 31 | (uint32_t)((i >> 1) & 255) << 23 | cmant[i >> 9];
}
#ifndef NO_CT
// the conversions as constant expressions (infinities and NaN of the source excluded: bit_cast of a NaN is unspecified)
struct ct_f2h
{
	uint16_t v[512 * NM]{};
	constexpr ct_f2h()
	{
		for (size_t i = 0; i < 512 * NM; i++)
		{
			uint32_t p = cpat(i);
			if ((p & 0x7f800000) == 0x7f800000 && (p & 0x7fffff))
				continue;
			v[i] = __builtin_bit_cast(uint16_t, half{ __builtin_bit_cast(float, p) });
		}
	}
};
static constexpr ct_f2h ctf{};
struct ct_h2f
{
	float v[65536 / 5 + 1]{};
	constexpr ct_h2f()
	{
		for (unsigned i = 0; i < 65536; i += 5)
		{
			if ((i & 0x7c00) == 0x7c00 && (i & 0x3ff))
				continue;
			v[i / 5] = static_cast<float>(half::from_bits((uint16_t)i));
		}
	}
};
static constexpr ct_h2f cth{};
#endif

template <typename T>
static void int_conv(const char* name)
{
	using L = std::numeric_limits<T>;
	vf::ctx.text = name;
	std::vector<T> vs;
	constexpr bool sg = (T)-1 < (T)0;
	auto add = [&](__int128 x)
	{
		if ((__int128)(T)x == x && (sg || x >= 0))
			vs.push_back((T)x);
	};
	for (__int128 i = -70000; i <= 70000; i++)
		add(i);
	for (unsigned k = 16; k < sizeof(T) * 8; k++)
		for (int d = -3; d <= 3; d++)
		{
			vs.push_back((T)(((unsigned __int128)1 << k) + d));
			vs.push_back((T)(-((unsigned __int128)1 << k) + d));
		}
	int64_t n = 0;
	for (T x : vs)
	{
		vf::at(n++);
		vf::state();
		bool neg				= x < 0;
		unsigned __int128 m		= neg ? -(unsigned __int128)(__int128)x : (unsigned __int128)x;
		uint16_t want			= ref_round(neg, m, 0, false);
		if (m > 16777216 && m < 65520) {}
		VF_CHECK(bits(half{ x }) == want || (m == 0 && bits(half{ x }) == 0), "half(%s %lld) = %04x, want %04x", name, (long long)x, bits(half{ x }), want);
		VF_CHECK(bits(static_cast<half>(x)) == bits(half(x)), "conversion forms differ");
	}
	(void)sizeof(L);
	for (unsigned b = 0; b < 65536; b++)
	{
		vf::at(-1, (int64_t)b);
		double v = ref_val((uint16_t)b);
		if (!std::isfinite(v))
			continue;
		double t = std::trunc(v);
		// representable?
		double lo = sg ? -std::ldexp(1.0, (int)sizeof(T) * 8 - 1) : 0.0;
		double hi = std::ldexp(1.0, (int)sizeof(T) * 8 - (sg ? 1 : 0));
		if (t < lo || t >= hi)
			continue;
		vf::state();
		T got = static_cast<T>(half::from_bits((uint16_t)b));
		VF_CHECK(got == (T)(__int128)t, "(%s)half %04x = %lld, want %.1f", name, b, (long long)got, t);
	}
	vf::ctx.text = nullptr;
}

static void g_conv()
{
	if (vf::group("half_to_float"))
		for (unsigned b = 0; b < 65536; b++)
		{
			if (!mine_())
				continue;
			vf::at((int64_t)b);
			vf::state();
			half h	 = half::from_bits((uint16_t)b);
			VF_CHECK(bits(h) == b, "from_bits %04x stored as %04x", b, bits(h));
			double w = ref_val((uint16_t)b);
			float f	 = h;
			double d = h;
			long double l = h;
			if (w != w)
			{
				VF_REQ(std::isnan(f));
				VF_REQ(std::isnan(d));
				VF_REQ(std::isnan(l));
			}
			else
			{
				VF_CHECK(fbits(f) == fbits((float)w), "float(half %04x) = %a, want %a", b, f, w);
				VF_CHECK(d == w && std::signbit(d) == std::signbit(w), "double(half %04x) = %a, want %a", b, d, w);
				VF_CHECK(l == w && std::signbit(l) == std::signbit(w), "long double(half %04x)", b);
				VF_CHECK(bits(half{ f }) == b, "half(float(%04x)) = %04x", b, bits(half{ f }));
				VF_CHECK(bits(half{ d }) == b, "half(double(%04x)) = %04x", b, bits(half{ d }));
				VF_CHECK(bits(half{ l }) == b, "half(long double(%04x))", b);
#if MUU_HAS_FLOAT128
				muu::float128_t q = h;
				VF_REQ((double)q == w);
				VF_CHECK(bits(half{ q }) == b, "half(float128(%04x))", b);
#endif
#if MUU_HAS_FLOAT16
				_Float16 x = h;
				VF_CHECK(bits(half{ x }) == b, "half(_Float16(%04x))", b);
				VF_REQ((double)x == w);
#endif
			}
			VF_CHECK(static_cast<bool>(h) == (w != 0), "bool(half %04x)", b);
#ifndef NO_CT
			if (b % 5 == 0 && w == w)
				VF_CHECK(fbits(cth.v[b / 5]) == fbits(f), "constexpr float(half %04x) = %a, run time %a", b, cth.v[b / 5], f);
#endif
			half a;
			a = h;
			half c{ a };
			VF_REQ(bits(a) == b);
			VF_REQ(bits(c) == b);
		}
	if (vf::group("bool"))
	{
		VF_REQ(bits(half{ true }) == 0x3c00);
		VF_REQ(bits(half{ false }) == 0);
		vf::state(2);
	}
	if (vf::group("reference_selftest"))
		for (size_t i = 0; i < 512 * NM; i++)
		{
			uint32_t p = cpat(i);
			vf::at((int64_t)p);
			vf::state();
			VF_CHECK(same(ref_from_float(p), ref_from_double((double)fl(p))), "the two references differ at %08x", p);
		}
#ifndef NO_CT
	if (vf::group("float_to_half_constexpr"))
		for (size_t i = 0; i < 512 * NM; i++)
		{
			uint32_t p = cpat(i);
			if ((p & 0x7f800000) == 0x7f800000 && (p & 0x7fffff))
				continue;
			vf::at((int64_t)p);
			vf::state();
			VF_CHECK(ctf.v[i] == ref_from_float(p), "constexpr half(%a) = %04x, want %04x", fl(p), ctf.v[i], ref_from_float(p));
		}
#endif
	if (vf::group("float_to_half"))
	{
		uint32_t per = (uint32_t)((1ull << 32) / 4096);
#if defined(SAN)
		per = 0;
		for (size_t i = 0; i < 512 * NM; i++)
		{
			vf::at((int64_t)cpat(i));
			vf::state();
			VF_CHECK(same(bits(half{ fl(cpat(i)) }), ref_from_float(cpat(i))), "half(%a)", fl(cpat(i)));
		}
#endif
		for (uint32_t c = 0; per && c < 4096; c++)
		{
			if (!mine_())
				continue;
			vf::at((int64_t)c * per);
			uint32_t n = 0;
			for (uint32_t k = 0; k < per; k++)
			{
				uint32_t p	  = c * per + k;
				uint16_t got  = bits(half{ fl(p) });
				uint16_t want = ref_from_float(p);
				if (got != want && !(hnan(got) && hnan(want)))
				{
					vf::at((int64_t)p);
					vf::fail("half(%a) = %04x, want %04x", fl(p), got, want);
					if (++n > 3)
						break;
				}
			}
			vf::state(per);
		}
	}
	if (vf::group("wide_to_half"))
	{
		// every midpoint between neighbouring halves, and its neighbours in double
		for (unsigned b = 0; b < 0x7c00; b++)
			for (int s = 0; s < 2; s++)
			{
				if (!mine_())
					continue;
				double lo  = ref_val((uint16_t)b), hi = b == 0x7bff ? 65536.0 : ref_val((uint16_t)(b + 1));
				double mid = (lo + hi) / 2;
				for (int d = -2; d <= 2; d++)
				{
					double x = mid;
					if (d < 0)
						x = d == -1 ? std::nextafter(mid, 0.0) : (mid + lo) / 2;
					if (d > 0)
						x = d == 1 ? std::nextafter(mid, 1e30) : (mid + hi) / 2;
					if (s)
						x = -x;
					vf::at((int64_t)b, s, d);
					vf::state();
					uint16_t want = ref_from_double(x);
					uint16_t got  = bits(half{ x });
					if (d == 1 || d == -1)
					{
						// a double just beside a midpoint: either neighbour when the conversion goes through float
						uint16_t w2 = ref_from_double((double)(float)x);
						VF_CHECK(got == want || got == w2, "half(%a) = %04x, want %04x", x, got, want);
						VF_CHECK(bits(half{ (long double)x }) == want || bits(half{ (long double)x }) == w2, "half(%aL)", x);
					}
					else
					{
						VF_CHECK(got == want, "half(%a) = %04x, want %04x", x, got, want);
						VF_CHECK(bits(half{ (long double)x }) == want, "half(%aL)", x);
#if MUU_HAS_FLOAT128
						VF_CHECK(bits(half{ (muu::float128_t)x }) == want, "half(%aQ)", x);
#endif
					}
				}
			}
		for (double x : { 65519.0, 65520.0, 65536.0, 1e10, 1e100, 1e300, (double)INFINITY, 1e-10, 1e-100, 1e-300, 0.0 })
			for (int s = 0; s < 2; s++)
			{
				double y = s ? -x : x;
				VF_CHECK(bits(half{ y }) == ref_from_double(y), "half(%a)", y);
				VF_CHECK(bits(half{ (long double)y }) == ref_from_double(y), "half(%aL)", y);
				vf::state();
			}
		VF_REQ(hnan(bits(half{ (double)NAN })));
		VF_REQ(hnan(bits(half{ (long double)NAN })));
	}
	if (vf::group("integers"))
	{
#define IC(T)                                                                                                          \
	if (mine_())                                                                                                    \
	int_conv<T>(#T)
		IC(signed char);
		IC(unsigned char);
		IC(char);
		IC(short);
		IC(unsigned short);
		IC(int);
		IC(unsigned);
		IC(long);
		IC(unsigned long);
		IC(long long);
		IC(unsigned long long);
#if MUU_HAS_INT128
		IC(muu::int128_t);
		IC(muu::uint128_t);
#endif
	}
	if (vf::group("literals"))
	{
		VF_REQ(bits(0.0_f16) == 0);
		VF_REQ(bits(1.0_f16) == 0x3c00);
		VF_REQ(bits(0.1_f16) == ref_from_double(0.1));
		VF_REQ(bits(65504.0_f16) == 0x7bff);
		VF_REQ(bits(42_f16) == ref_from_double(42));
		VF_REQ(bits(2049_f16) == ref_from_double(2049));
		VF_REQ(bits(2051_f16) == ref_from_double(2051));
		VF_REQ(bits(6.0e-8_f16) == ref_from_double(6.0e-8));
		VF_REQ(bits(6.1e-5_f16) == ref_from_double(6.1e-5));
		VF_REQ(bits(3.14159265_f16) == ref_from_double(3.14159265));
		VF_REQ(bits(-2.5_f16) == ref_from_double(-2.5));
		vf::state(11);
	}
	if (vf::group("streams"))
		for (unsigned b = 0; b < 65536; b += 1)
		{
			if (!mine_())
				continue;
			if ((b & 0x7c00) == 0x7c00)
				continue;
			if (!vf::thorough && (b & 7) > 2)
				continue;
			vf::at((int64_t)b);
			vf::state();
			half h = half::from_bits((uint16_t)b);
			std::ostringstream o, o2;
			o << h;
			o2 << (float)ref_val((uint16_t)b);
			VF_CHECK(o.str() == o2.str(), "printed %s, float prints %s", o.str().c_str(), o2.str().c_str());
			std::ostringstream p;
			p.precision(9);
			p << h;
			std::istringstream i(p.str());
			half r = 7.0_f16;
			i >> r;
			VF_CHECK(i && bits(r) == b, "%s read back as %04x", p.str().c_str(), bits(r));
			std::istringstream bad("xyz");
			half k = h;
			bad >> k;
			VF_CHECK(!bad && bits(k) == b, "failed extraction changed the value");
			std::wostringstream w;
			w << h;
			VF_REQ(w.str().size() == o.str().size());
		}
	if (vf::group("limits"))
	{
		using L = std::numeric_limits<half>;
		vf::state();
		VF_REQ(bits(L::min()) == 0x0400);
		VF_REQ(bits(L::lowest()) == 0xfbff);
		VF_REQ(bits(L::max()) == 0x7bff);
		VF_REQ(bits(L::epsilon()) == 0x1400);
		VF_REQ(bits(L::round_error()) == 0x3800); // 0.5, as std::numeric_limits<float>::round_error
		VF_REQ(bits(L::infinity()) == 0x7c00);
		VF_REQ(hnan(bits(L::quiet_NaN())) && (bits(L::quiet_NaN()) & 0x200));
		VF_REQ(hnan(bits(L::signaling_NaN())));
		VF_REQ(bits(L::denorm_min()) == 1);
		VF_REQ(L::digits == 11 && L::digits10 == 3 && L::max_digits10 == 5 && L::radix == 2);
		VF_REQ(L::min_exponent == -13 && L::max_exponent == 16 && L::min_exponent10 == -4 && L::max_exponent10 == 4);
		VF_REQ(L::is_specialized && L::is_signed && !L::is_integer && !L::is_exact && L::has_infinity && L::has_quiet_NaN && L::is_bounded && !L::is_modulo);
		VF_REQ(bits(std::numeric_limits<const half>::max()) == 0x7bff);
	}
	if (vf::group("constants"))
	{
		using H = muu::constants<half>;
		auto chk = [&](const char* n, half h, long double l)
		{
			vf::ctx.text = n;
			vf::state();
			uint16_t want = ref_from_double((double)l);
			VF_CHECK(same(bits(h), want), "constants<half>::%s = %04x, want %04x", n, bits(h), want);
			vf::ctx.text = nullptr;
		};
#define K(n, v) chk(#n, H::n, v##L)
;
#include "n_constants.inc"
#undef K
		VF_REQ(bits(H::lowest) == 0xfbff);
		VF_REQ(bits(H::highest) == 0x7bff);
		VF_REQ(hnan(bits(H::nan)));
		VF_REQ(hnan(bits(H::signaling_nan)));
		VF_REQ(bits(H::infinity) == 0x7c00);
		VF_REQ(bits(H::negative_infinity) == 0xfc00);
		VF_REQ(bits(H::negative_zero) == 0x8000);
	}
}

//----------------------------------------------------------------------------------------------------------------------
static const char* opn[] = { "+", "-", "*", "/" };
static double dop(int o, double a, double b)
{
	switch (o)
	{
		case 0: return a + b;
		case 1: return a - b;
		case 2: return a * b;
		default: return a / b;
	}
}
template <typename A, typename B>
static auto hop(int o, A a, B b)
{
	switch (o)
	{
		case 0: return a + b;
		case 1: return a - b;
		case 2: return a * b;
		default: return a / b;
	}
}
template <typename B>
static half& asop(int o, half& a, B b)
{
	switch (o)
	{
		case 0: return a += b;
		case 1: return a -= b;
		case 2: return a *= b;
		default: return a /= b;
	}
}
static int cmp_mask(double a, double b)
{
	return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5;
}
template <typename A, typename B>
static int hcmp(A a, B b)
{
	return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5;
}
template <typename T>
static void mixed(const char* name, const std::vector<T>& vals)
{
	constexpr bool fp = !std::numeric_limits<T>::is_integer && std::is_floating_point_v<T>;
	vf::ctx.text	  = name;
	auto bd			  = boundary();
	for (size_t i = 0; i < bd.size(); i++)
	{
		if (!mine_())
			continue;
		half h	 = half::from_bits(bd[i]);
		double d = ref_val(bd[i]);
		for (size_t j = 0; j < vals.size(); j++)
		{
			T v = vals[j];
			vf::at((int64_t)i, (int64_t)j);
			vf::state();
			vf::trans(16);
			for (int o = 0; o < 4; o++)
			{
				if constexpr (fp)
				{
					using R = decltype(hop(o, h, v));
					static_assert(std::is_same_v<R, T>);
					T a = hop(o, h, v), b = hop(o, v, h);
					T wa = hop(o, (T)d, v), wb = hop(o, v, (T)d);
					VF_CHECK(a == wa || (a != a && wa != wa), "half(%g) %s %s", d, opn[o], name);
					VF_CHECK(b == wb || (b != b && wb != wb), "%s %s half(%g)", name, opn[o], d);
					half x	   = h;
					half& ret  = asop(o, x, v);
					VF_REQ(&ret == &x);
					uint16_t w1 = ref_from_ld(wa), w2 = ref_from_double((double)(float)wa);
					VF_CHECK(same(bits(x), w1) || same(bits(x), w2), "half(%g) %s= %s: %04x want %04x", d, opn[o], name, bits(x), w1);
				}
				else
				{
					using R = decltype(hop(o, h, v));
					static_assert(std::is_same_v<R, half>);
					float fv   = (float)v;
					uint16_t wa = ref_from_float(fbits(hop(o, (float)d, fv)));
					uint16_t wb = ref_from_float(fbits(hop(o, fv, (float)d)));
					VF_CHECK(same(bits(hop(o, h, v)), wa), "half(%g) %s %s(%g): %04x want %04x", d, opn[o], name, fv, bits(hop(o, h, v)), wa);
					VF_CHECK(same(bits(hop(o, v, h)), wb), "%s(%g) %s half(%g)", name, fv, opn[o], d);
					half x = h;
					half& ret = asop(o, x, v);
					VF_REQ(&ret == &x);
					VF_CHECK(same(bits(x), wa), "half(%g) %s= %s(%g): %04x want %04x", d, opn[o], name, fv, bits(x), wa);
				}
			}
			if constexpr (fp)
			{
				VF_CHECK(hcmp(h, v) == hcmp((T)d, v), "half(%g) cmp %s", d, name);
				VF_CHECK(hcmp(v, h) == hcmp(v, (T)d), "%s cmp half(%g)", name, d);
			}
			else
			{
				// compared as floats
				VF_CHECK(hcmp(h, v) == hcmp((float)d, (float)v), "half(%g) cmp %s(%g)", d, name, (double)v);
				VF_CHECK(hcmp(v, h) == hcmp((float)v, (float)d), "%s(%g) cmp half(%g)", name, (double)v, d);
			}
		}
	}
	vf::ctx.text = nullptr;
}
template <typename T>
static std::vector<T> ints()
{
	std::vector<T> r;
	for (int i = -3; i <= 10; i++)
		if ((T)-1 < (T)0 || i >= 0)
			r.push_back((T)i);
	for (unsigned k = 5; k < sizeof(T) * 8; k += (k < 30 ? 3 : 16))
	{
		r.push_back((T)((unsigned __int128)1 << k));
		r.push_back((T)(((unsigned __int128)1 << k) - 1));
		r.push_back((T)(((unsigned __int128)1 << k) + 1));
		r.push_back((T)(-((unsigned __int128)1 << k)));
	}
	r.push_back((T)(((unsigned __int128)1 << (sizeof(T) * 8 - 1)) - 1));
	r.push_back((T)-1);
	return r;
}
template <typename T>
static std::vector<T> flts()
{
	std::vector<T> r;
	for (double d : { 0.0, 1.0, 2.0, 0.5, 3.0, 0.1, 1.0009765625, 1.00048828125, 65504.0, 65520.0, 100000.0, 6e-8, 6.2e-5, 1e-7, 1e-30, 1e30, 2048.5, 1.0 / 3 })
	{
		r.push_back((T)d);
		r.push_back((T)-d);
	}
	r.push_back((T)INFINITY);
	r.push_back((T)-INFINITY);
	r.push_back((T)NAN);
	return r;
}
static void pair_case(uint16_t x, uint16_t y, bool all_ops)
{
	half a = half::from_bits(x), b = half::from_bits(y);
	float fa = (float)ref_val(x), fb = (float)ref_val(y);
	for (int o = 0; o < 4; o++)
	{
		uint16_t want = ref_from_double(dop(o, (double)fa, (double)fb));
		uint16_t got  = bits(hop(o, a, b));
		if (!same(got, want))
		{
			vf::at(x, y);
			vf::fail("half %04x %s %04x = %04x, want %04x", x, opn[o], y, got, want);
		}
		if (all_ops)
		{
			half c = a;
			if (&asop(o, c, b) != &c || !same(bits(c), want))
			{
				vf::at(x, y);
				vf::fail("half %04x %s= %04x = %04x, want %04x", x, opn[o], y, bits(c), want);
			}
		}
	}
	int g = hcmp(a, b), w = cmp_mask(fa, fb);
	if (g != w)
	{
		vf::at(x, y);
		vf::fail("half comparisons of %04x and %04x: mask %02x, want %02x", x, y, g, w);
	}
}
static bool close_h(half got, double want, int ulps = 1)
{
	uint16_t g = bits(got);
	if (want != want)
		return hnan(g);
	uint16_t w = ref_from_double(want);
	if (g == w)
		return true;
	if (hnan(g))
		return false;
	auto ord = [](uint16_t b) { return (b & 0x8000) ? -(int)(b & 0x7fff) : (int)b; };
	return std::abs(ord(g) - ord(w)) <= ulps;
}

static void g_ops()
{
	auto bd = boundary();
	if (vf::group("pairs"))
	{
#ifdef SAN
		for (unsigned x : bd)
#else
		for (unsigned x = 0; x < 65536; x++)
#endif
		{
			if (!mine_())
				continue;
			vf::at((int64_t)x);
			if (vf::thorough && x % 4 == 0)
			{
				for (unsigned y = 0; y < 65536; y++)
					pair_case((uint16_t)x, (uint16_t)y, false);
				vf::state(65536);
				vf::trans(65536 * 10);
			}
			for (size_t i = 0; i < bd.size(); i += (vf::thorough ? 1 : 2))
			{
				pair_case((uint16_t)x, bd[i], true);
				pair_case(bd[i], (uint16_t)x, false);
			}
			vf::state(bd.size() * 2);
			vf::trans(bd.size() * 24);
		}
	}
	if (vf::group("mixed"))
	{
		mixed<float>("float", flts<float>());
		mixed<double>("double", flts<double>());
		mixed<long double>("long double", flts<long double>());
		mixed<signed char>("signed char", ints<signed char>());
		mixed<unsigned char>("unsigned char", ints<unsigned char>());
		mixed<char>("char", ints<char>());
		mixed<short>("short", ints<short>());
		mixed<unsigned short>("unsigned short", ints<unsigned short>());
		mixed<int>("int", ints<int>());
		mixed<unsigned>("unsigned", ints<unsigned>());
		mixed<long>("long", ints<long>());
		mixed<unsigned long>("unsigned long", ints<unsigned long>());
		mixed<long long>("long long", ints<long long>());
		mixed<unsigned long long>("unsigned long long", ints<unsigned long long>());
	}
	if (vf::group("unary"))
		for (unsigned x = 0; x < 65536; x++)
		{
			if (!mine_())
				continue;
			vf::at((int64_t)x);
			vf::state();
			vf::trans(20);
			half h	 = half::from_bits((uint16_t)x);
			double v = ref_val((uint16_t)x);
			VF_CHECK(same(bits(-h), (uint16_t)(x ^ 0x8000)), "-half %04x = %04x", x, bits(-h));
			VF_CHECK(same(bits(+h), (uint16_t)x), "+half");
			VF_CHECK(muu::infinity_or_nan(h) == !std::isfinite(v), "infinity_or_nan(%04x)", x);
			VF_CHECK(same(bits(muu::abs(h)), (uint16_t)(x & 0x7fff)), "abs(%04x) = %04x", x, bits(muu::abs(h)));
			half i = h, j = h, k = h, l = h;
			half &ri = ++i, &rj = --j;
			half pk = k++, pl = l--;
			uint16_t up = ref_from_double(v + 1), dn = ref_from_double(v - 1);
			VF_CHECK(&ri == &i && same(bits(i), up), "++%04x = %04x want %04x", x, bits(i), up);
			VF_CHECK(&rj == &j && same(bits(j), dn), "--%04x = %04x want %04x", x, bits(j), dn);
			VF_CHECK(same(bits(pk), (uint16_t)x) && same(bits(k), up), "%04x++", x);
			VF_CHECK(same(bits(pl), (uint16_t)x) && same(bits(l), dn), "%04x--", x);
			auto samev = [](half g, double w) { return w != w ? hnan(bits(g)) : (double)(float)g == w; };
			VF_CHECK(samev(muu::floor(h), std::floor(v)), "floor(%04x) = %04x", x, bits(muu::floor(h)));
			VF_CHECK(samev(muu::ceil(h), std::ceil(v)), "ceil(%04x) = %04x", x, bits(muu::ceil(h)));
			VF_CHECK(close_h(muu::sqrt(h), std::sqrt(v), 0), "sqrt(%04x) = %04x", x, bits(muu::sqrt(h)));
			VF_CHECK(close_h(muu::sin(h), std::sin(v)), "sin(%04x) = %04x", x, bits(muu::sin(h)));
			VF_CHECK(close_h(muu::cos(h), std::cos(v)), "cos(%04x) = %04x", x, bits(muu::cos(h)));
			VF_CHECK(close_h(muu::tan(h), std::tan(v)), "tan(%04x) = %04x", x, bits(muu::tan(h)));
			VF_CHECK(close_h(muu::asin(h), std::asin(v)), "asin(%04x) = %04x", x, bits(muu::asin(h)));
			VF_CHECK(close_h(muu::acos(h), std::acos(v)), "acos(%04x) = %04x", x, bits(muu::acos(h)));
			VF_CHECK(close_h(muu::atan(h), std::atan(v)), "atan(%04x) = %04x", x, bits(muu::atan(h)));
			VF_CHECK(muu::approx_zero(h, 0.5_f16) == (std::fabs(v) < 0.5), "approx_zero(%04x, 0.5)", x);
		}
	if (vf::group("binary_functions"))
		for (size_t i = 0; i < bd.size(); i++)
			for (size_t j = 0; j < bd.size(); j++)
			{
				if (!mine_())
					continue;
				vf::at(bd[i], bd[j]);
				vf::state();
				vf::trans(4);
				half a = half::from_bits(bd[i]), b = half::from_bits(bd[j]);
				float va = (float)ref_val(bd[i]), vb = (float)ref_val(bd[j]);
				VF_CHECK(close_h(muu::atan2(a, b), std::atan2(va, vb)), "atan2(%g, %g) = %g", va, vb, (float)muu::atan2(a, b));
				for (float e : { 0.0009765625f, 0.5f, 64.0f })
					VF_CHECK(muu::approx_equal(a, b, half{ e }) == (std::fabs(vb - va) < e), "approx_equal(%g, %g, %g)", va, vb, e);
				if (std::isfinite(va) && std::isfinite(vb))
					for (float t : { 0.0f, 0.25f, 0.5f, 1.0f, -1.0f, 2.0f })
						VF_CHECK(close_h(muu::lerp(a, b, half{ t }), (double)(va * (1 - t) + vb * t)), "lerp(%g, %g, %g) = %g", va, vb, t, (float)muu::lerp(a, b, half{ t }));
			}
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	if (vf::args.empty() || vf::args[0] == "N01")
		g_conv();
	if (vf::args.empty() || vf::args[0] == "N02")
		g_ops();
	vf::finish();
}
