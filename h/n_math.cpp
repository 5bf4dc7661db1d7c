// N04: scalar maths: every point of dense argument grids (and the points next to the awkward ones), at run time and at
// compile time, against quad-precision references.
#include "muu/math.h"
#include "muu/half.h"
#include "vf.h"
#include <quadmath.h>
#include <array>
#include <numeric>
#include <cmath>
using namespace muu;
using Q = __float128;
static uint64_t mine_n;
static bool mine_() { return vf::mine(mine_n++); }
static const char* show(Q q)
{
	static char b[8][64];
	static int i;
	char* p = b[i++ & 7];
	quadmath_snprintf(p, 64, "%.22Qg", q);
	return p;
}
template <class T> constexpr Q eps_of()
{
	if constexpr (std::is_same_v<T, __float128>) return FLT128_EPSILON;
	else return sizeof(T) == 2 ? 0x1p-10Q : Q(std::numeric_limits<T>::epsilon());
}
template <class T> constexpr bool narrow = sizeof(T) == 2;
static Q qabs(Q q) { return q < 0 ? -q : q; }
// argument grids -------------------------------------------------------------------------------------------------
template <class T> constexpr Q pi_q = 3.14159265358979323846264338327950288Q;
constexpr int NG = 515;
// angles: multiples of pi/64 in [-4pi, 4pi] rounded to T (both neighbours of the exact value occur over the grid)
template <class T> constexpr T angle(int i) { return static_cast<T>(Q(i - NG / 2) * pi_q<T> / 64); }
template <class T> constexpr T unit(int i) { return static_cast<T>(Q(i - NG / 2) / 257); } // [-1, 1]
template <class T> constexpr T any(int i)
{
	// +-(1 + f/4) * 2^k
	const int s = i % 2, f = (i / 2) % 4, k = (i / 8) - 32;
	Q v = Q(4 + f) / 4;
	for (int j = 0; j < (k < 0 ? -k : k); j++) v = k < 0 ? v / 2 : v * 2;
	if (sizeof(T) == 2) { if (v > 60000) v = 60000; if (v < 0x1p-20Q) v = 0; }
	return static_cast<T>(s ? -v : v);
}
template <class T> constexpr T pos(int i)
{
	const T v = any<T>(i);
	return v < T{} ? static_cast<T>(-v) : v;
}
struct F_sin { template <class T> constexpr auto operator()(T x) const { return muu::sin(x); } static Q ref(Q x) { return sinq(x); } template <class T> static constexpr T arg(int i) { return angle<T>(i); } };
struct F_cos { template <class T> constexpr auto operator()(T x) const { return muu::cos(x); } static Q ref(Q x) { return cosq(x); } template <class T> static constexpr T arg(int i) { return angle<T>(i); } };
struct F_tan { template <class T> constexpr auto operator()(T x) const { return muu::tan(x); } static Q ref(Q x) { return tanq(x); } template <class T> static constexpr T arg(int i) { const T a = angle<T>(i); return (i - NG / 2) % 32 == 0 && (i - NG / 2) % 64 != 0 ? static_cast<T>(a * static_cast<T>(0.75)) : a; } };
struct F_asin { template <class T> constexpr auto operator()(T x) const { return muu::asin(x); } static Q ref(Q x) { return asinq(x); } template <class T> static constexpr T arg(int i) { return unit<T>(i); } };
struct F_acos { template <class T> constexpr auto operator()(T x) const { return muu::acos(x); } static Q ref(Q x) { return acosq(x); } template <class T> static constexpr T arg(int i) { return unit<T>(i); } };
struct F_atan { template <class T> constexpr auto operator()(T x) const { return muu::atan(x); } static Q ref(Q x) { return atanq(x); } template <class T> static constexpr T arg(int i) { return any<T>(i); } };
struct F_sqrt { template <class T> constexpr auto operator()(T x) const { return muu::sqrt(x); } static Q ref(Q x) { return sqrtq(x); } template <class T> static constexpr T arg(int i) { return pos<T>(i); } };
struct F_csqrt { template <class T> constexpr auto operator()(T x) const { return muu::consteval_sqrt(x); } static Q ref(Q x) { return sqrtq(x); } template <class T> static constexpr T arg(int i) { return pos<T>(i); } };
struct F_floor { template <class T> constexpr auto operator()(T x) const { return muu::floor(x); } static Q ref(Q x) { return floorq(x); } template <class T> static constexpr T arg(int i) { return any<T>(i); } };
struct F_ceil { template <class T> constexpr auto operator()(T x) const { return muu::ceil(x); } static Q ref(Q x) { return ceilq(x); } template <class T> static constexpr T arg(int i) { return any<T>(i); } };
struct F_abs { template <class T> constexpr auto operator()(T x) const { return muu::abs(x); } static Q ref(Q x) { return fabsq(x); } template <class T> static constexpr T arg(int i) { return any<T>(i); } };
template <class F> constexpr bool exact = std::is_same_v<F, F_floor> || std::is_same_v<F, F_ceil> || std::is_same_v<F, F_abs>;
template <class F> constexpr bool is_sqrt = std::is_same_v<F, F_sqrt> || std::is_same_v<F, F_csqrt>;

template <class F, class T> constexpr auto table = []() {
	std::array<T, NG> a{};
	for (int i = 0; i < NG; i++) a[size_t(i)] = F{}(F::template arg<T>(i));
	return a;
}();
template <class F, class T> static void compare(T x, T got, const char* when, int ulps)
{
	const Q want = F::ref(Q(x));
	vf::state(1);
	vf::trans(1);
	if constexpr (exact<F>) { VF_CHECK(Q(got) == want, "%s: f(%s) = %s, want %s", when, show(Q(x)), show(Q(got)), show(want)); }
	else
	{
		// relative to the result for roots and big results, relative to one otherwise
		Q mag = qabs(want);
		if (!is_sqrt<F> && mag < 1) mag = 1;
		if (std::is_same_v<F, F_tan>) mag = mag * mag; // conditioning
		VF_CHECK(qabs(Q(got) - want) <= ulps * eps_of<T>() * mag, "%s: f(%s) = %s, want %s", when, show(Q(x)), show(Q(got)), show(want));
	}
}
template <class F, class T> static void unary(const char* name, int tag)
{
	if (!vf::group(name)) return;
	static_assert(std::is_same_v<decltype(F{}(T{})), T>);
	for (int i = 0; i < NG; i++)
	{
		if (!mine_()) continue;
		vf::at(tag, i);
		volatile T in = F::template arg<T>(i);
		const T x = in;
		compare<F, T>(x, F{}(x), "run time", narrow<T> ? 1 : 4);
#ifndef NO_CT
		// the compile-time quad versions have a fixed number of series terms
		compare<F, T>(x, table<F, T>[size_t(i)], "compile time", 64);
#endif
	}
}
template <class T> static void types(int tag)
{
	unary<F_sin, T>("sin", tag);
	unary<F_cos, T>("cos", tag);
	unary<F_tan, T>("tan", tag);
	unary<F_asin, T>("asin", tag);
	unary<F_acos, T>("acos", tag);
	unary<F_atan, T>("atan", tag);
	unary<F_sqrt, T>("sqrt", tag);
	unary<F_csqrt, T>("consteval_sqrt", tag);
	unary<F_floor, T>("floor", tag);
	unary<F_ceil, T>("ceil", tag);
	unary<F_abs, T>("abs", tag);
}
// square roots and floors over the whole exponent range, at compile time too
template <class T> constexpr T pow2(int e)
{
	T v{ 1 };
	for (int i = 0; i < e; i++) v *= T{ 2 };
	for (int i = 0; i > e; i--) v /= T{ 2 };
	return v;
}
template <class T> constexpr int max_e = sizeof(T) == 4 ? 127 : sizeof(T) == 8 ? 1023 : 16383;
template <class T> constexpr int min_e = sizeof(T) == 4 ? -149 : sizeof(T) == 8 ? -1074 : -16382;
constexpr int NE = 201;
template <class T> constexpr T wide_arg(int i)
{
	const int lo = min_e<T>, hi = max_e<T>;
	const T v = pow2<T>(lo + int((long long)(hi - lo) * i / (NE - 1)));
	return i % 2 && v < pow2<T>(hi - 2) ? v * T{ 3 } : v;
}
template <class T> constexpr auto wide_sqrt = []() {
	std::array<T, NE> a{};
	for (int i = 0; i < NE; i++) a[size_t(i)] = muu::sqrt(wide_arg<T>(i));
	return a;
}();
template <class T> constexpr auto wide_floor = []() {
	std::array<T, NE> a{};
	for (int i = 0; i < NE; i++) a[size_t(i)] = muu::floor(-wide_arg<T>(i));
	return a;
}();
template <class T> constexpr auto wide_ceil = []() {
	std::array<T, NE> a{};
	for (int i = 0; i < NE; i++) a[size_t(i)] = muu::ceil(wide_arg<T>(i));
	return a;
}();
template <class T> static void wide(int tag)
{
	if (!vf::group("exponent_range")) return;
	for (int i = 0; i < NE; i++)
	{
		if (!mine_()) continue;
		vf::at(tag, i);
		volatile T in = wide_arg<T>(i);
		const T x = in;
		compare<F_sqrt, T>(x, muu::sqrt(x), "run time", 2);
		compare<F_floor, T>(-x, muu::floor(-x), "run time", 0);
		compare<F_ceil, T>(x, muu::ceil(x), "run time", 0);
#ifndef NO_CT
		compare<F_sqrt, T>(x, wide_sqrt<T>[size_t(i)], "compile time", 4);
		compare<F_floor, T>(-x, wide_floor<T>[size_t(i)], "compile time", 0);
		compare<F_ceil, T>(x, wide_ceil<T>[size_t(i)], "compile time", 0);
#endif
	}
}
// atan2 -------------------------------------------------------------------------------------------------------------
constexpr int NA = 21;
template <class T> constexpr T coord(int i)
{
	constexpr int c[] = { -4096, -100, -17, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 17, 100, 333, 4096 };
	return static_cast<T>(c[i]) / static_cast<T>(8);
}
template <class T> constexpr auto atan2_tab = []() {
	std::array<T, NA * NA> a{};
	for (int y = 0; y < NA; y++)
		for (int x = 0; x < NA; x++)
			if (y != 8 || x != 8) a[size_t(y * NA + x)] = muu::atan2(coord<T>(y), coord<T>(x));
	return a;
}();
template <class T> static void atan2s(int tag)
{
	if (!vf::group("atan2")) return;
	for (int y = 0; y < NA; y++)
		for (int x = 0; x < NA; x++)
		{
			if (!mine_()) continue;
			vf::at(tag, y, x);
			volatile T yy = coord<T>(y), xx = coord<T>(x);
			const Q want = atan2q(Q(T(yy)), Q(T(xx)));
			const T got = muu::atan2(T(yy), T(xx));
			vf::state(1);
			VF_CHECK(qabs(Q(got) - want) <= 4 * eps_of<T>() * (narrow<T> ? 1 : 1), "atan2(%s, %s) = %s", show(Q(T(yy))), show(Q(T(xx))), show(Q(got)));
#ifndef NO_CT
			if (y != 8 || x != 8)
			{
				const T ct = atan2_tab<T>[size_t(y * NA + x)];
				VF_CHECK(qabs(Q(ct) - want) <= 16 * eps_of<T>(), "compile-time atan2(%s, %s) = %s", show(Q(T(yy))), show(Q(T(xx))), show(Q(ct)));
			}
#endif
		}
}
static void atan2_int()
{
	if (!vf::group("atan2_integers")) return;
	for (int y = -20; y <= 20; y++)
		for (int x = -20; x <= 20; x++)
		{
			if (!mine_()) continue;
			vf::at(y, x);
			vf::state(1);
			const Q want = atan2q(y, x);
			VF_CHECK(qabs(muu::atan2(y, x) - want) <= 4 * eps_of<double>(), "(int, int)");
			VF_CHECK(qabs(muu::atan2((long long)y, (signed char)x) - want) <= 4 * eps_of<double>(), "(long long, char)");
			VF_CHECK(qabs(muu::atan2(double(y), x) - want) <= 4 * eps_of<double>(), "(double, int)");
			VF_CHECK(qabs(muu::atan2(y, (long double)x) - want) <= 4 * eps_of<long double>(), "(int, long double)");
			static_assert(std::is_same_v<decltype(muu::atan2(1, 2)), double> && std::is_same_v<decltype(muu::atan2(1.0f, 2.0)), double>
						  && std::is_same_v<decltype(muu::atan2(1.0f, 2.0f)), float> && std::is_same_v<decltype(muu::atan2(1, 2.0L)), long double>);
		}
}
template <class I> static void ints(const char* name)
{
	if (!vf::group(name)) return;
	static_assert(std::is_same_v<decltype(muu::sin(I{})), double> && std::is_same_v<decltype(muu::floor(I{})), double>
				  && std::is_same_v<decltype(muu::sqrt(I{})), double> && std::is_same_v<decltype(muu::abs(I{})), I>);
	for (int i = std::is_signed_v<I> ? -100 : 0; i <= 100; i++)
	{
		if (!mine_()) continue;
		vf::at(i);
		vf::state(1);
		volatile I in = I(i);
		const I x = in;
		const Q e = 4 * eps_of<double>();
		VF_CHECK(qabs(muu::sin(x) - sinq(i)) <= e, "sin");
		VF_CHECK(qabs(muu::cos(x) - cosq(i)) <= e, "cos");
		VF_CHECK(qabs(muu::tan(x) - tanq(i)) <= e * (1 + tanq(i) * tanq(i)), "tan");
		VF_CHECK(qabs(muu::atan(x) - atanq(i)) <= e, "atan");
		if (i >= 0) { VF_CHECK(qabs(muu::sqrt(x) - sqrtq(i)) <= e * 10, "sqrt"); VF_CHECK(qabs(muu::consteval_sqrt(x) - sqrtq(i)) <= e * 10, "consteval_sqrt"); }
		if (i >= -1 && i <= 1) { VF_CHECK(qabs(muu::asin(x) - asinq(i)) <= e, "asin"); VF_CHECK(qabs(muu::acos(x) - acosq(i)) <= e, "acos"); }
		VF_CHECK(muu::floor(x) == i && muu::ceil(x) == i, "floor/ceil");
		VF_CHECK(Q(muu::abs(x)) == qabs(i), "abs");
		VF_CHECK(!muu::infinity_or_nan(x), "infinity_or_nan");
		VF_CHECK(muu::approx_zero(x) == (i == 0), "approx_zero");
		for (int j = -3; j <= 3; j++) { if (std::is_signed_v<I> || i + j >= 0) VF_CHECK(muu::approx_equal(x, I(i + j)) == (j == 0), "approx_equal"); }
		VF_CHECK(muu::normalize_angle(x) >= 0 && muu::normalize_angle(x) < constants<double>::two_pi, "normalize_angle");
		VF_CHECK(qabs(sinq(muu::normalize_angle(x)) - sinq(i)) <= 100 * e, "normalize_angle");
		VF_CHECK(muu::normalize_angle_signed(x) >= -constants<double>::pi && muu::normalize_angle_signed(x) < constants<double>::pi, "normalize_angle_signed");
		VF_CHECK(qabs(cosq(muu::normalize_angle_signed(x)) - cosq(i)) <= 100 * e, "normalize_angle_signed");
		VF_CHECK(muu::lerp(x, I(100), 0.25) == double(i) * 0.75 + 25, "lerp");
	}
}
// angle normalization ------------------------------------------------------------------------------------------------
template <class T> static T next(T v, int n)
{
	if constexpr (narrow<T>) { half h{ float(v) }; uint16_t b; memcpy(&b, &h, 2); (void)b; return v; }
	else if constexpr (std::is_same_v<T, __float128>)
	{
		for (; n > 0; n--) v = nextafterq(v, HUGE_VALQ);
		for (; n < 0; n++) v = nextafterq(v, -HUGE_VALQ);
		return v;
	}
	else
	{
		for (; n > 0; n--) v = std::nextafter(v, std::numeric_limits<T>::infinity());
		for (; n < 0; n++) v = std::nextafter(v, -std::numeric_limits<T>::infinity());
		return v;
	}
}
template <class T> static void check_angle(T x)
{
	const Q two = 2 * pi_q<T>;
	vf::state(1);
	const T a = muu::normalize_angle(x), b = muu::normalize_angle_signed(x);
	// the bounds are those of the type, except that the 16-bit types compute in float
	const Q hi = narrow<T> ? two : Q(constants<T>::two_pi), hs = narrow<T> ? pi_q<T> : Q(constants<T>::pi);
	const Q slack = narrow<T> ? 0x1p-9Q : 0;
	VF_CHECK(Q(a) >= 0 && (narrow<T> ? Q(a) <= hi : Q(a) < hi), "normalize_angle(%s) = %s is outside [0, 2pi)", show(Q(x)), show(Q(a)));
	VF_CHECK(Q(b) >= -hs - slack && (narrow<T> ? Q(b) <= hs : Q(b) < hs), "normalize_angle_signed(%s) = %s is outside [-pi, pi)", show(Q(x)), show(Q(b)));
	const Q tol = (narrow<T> ? Q(0x1p-8Q) : 4 * eps_of<T>()) * (qabs(Q(x)) * (narrow<T> ? Q(0x1p-10Q) : 1) + two);
	const Q da = remainderq(Q(a) - Q(x), two), db = remainderq(Q(b) - Q(x), two);
	VF_CHECK(qabs(da) <= tol, "normalize_angle(%s) = %s is not the same angle", show(Q(x)), show(Q(a)));
	VF_CHECK(qabs(db) <= tol, "normalize_angle_signed(%s) = %s is not the same angle", show(Q(x)), show(Q(b)));
	if (Q(x) >= 0 && Q(x) < hi) { VF_CHECK(Q(a) == Q(x), "normalize_angle changed %s", show(Q(x))); }
	if (Q(x) >= -hs && Q(x) < hs) { VF_CHECK(Q(b) == Q(x), "normalize_angle_signed changed %s", show(Q(x))); }
}
template <class T> static void angles(int tag)
{
	if (!vf::group("normalize_angle")) return;
	const int lim = vf::thorough ? 40000 : 4000;
	for (int k = -lim; k <= lim; k++)
	{
		if (!mine_()) continue;
		for (int n = -3; n <= 3; n++)
		{
			vf::at(tag, k, n);
			if (sizeof(T) == 2 && (n || k > 20000 || k < -20000)) continue;
			check_angle<T>(next(static_cast<T>(Q(k) * pi_q<T> / 2), n));
			check_angle<T>(next(static_cast<T>(T(constants<T>::pi_over_two) * static_cast<T>(k)), n));
			check_angle<T>(next(static_cast<T>(Q(k) / 8), n));
		}
	}
	for (int e = (narrow<T> ? -24 : -140); e <= (narrow<T> ? 14 : 18); e++)
		for (int s = -1; s <= 1; s += 2)
		{
			if (!mine_()) continue;
			vf::at(tag, 100000 + e, s);
			check_angle<T>(static_cast<T>(scalbnq(s, e)));
			check_angle<T>(static_cast<T>(scalbnq(s * 1.25Q, e)));
		}
}
// infinity_or_nan ---------------------------------------------------------------------------------------------------
template <class T, class B> static void inf_nan(const char* name, std::initializer_list<std::pair<B, bool>> list)
{
	if (!vf::group(name)) return;
	int i = 0;
	for (const auto& [bits, want] : list)
	{
		vf::at(i++);
		if (!mine_()) continue;
		B v = bits;
		asm volatile("" : "+m"(v));
		T f[3]{ T{}, T{ 1 }, T{} };
		memcpy(&f[2], &v, sizeof(T) == 16 && sizeof(B) == 16 && std::is_same_v<T, long double> ? 10 : sizeof(B));
		asm volatile("" : "+m"(f));
		vf::state(1);
		VF_CHECK(infinity_or_nan(f[2]) == want, "scalar");
		VF_CHECK(infinity_or_nan(f) == want, "array");
		VF_CHECK(infinity_or_nan(f[0], f[2]) == want && infinity_or_nan(f[2], f[1]) == want && infinity_or_nan(f[0], 1, f[2], 2.0) == want && infinity_or_nan(1, f[0], 3u, f[2]) == want, "several");
		VF_CHECK(!infinity_or_nan(f[0], f[1]), "finite ones");
	}
}
static void inf_nans()
{
	using P16 = std::initializer_list<std::pair<uint16_t, bool>>;
	std::vector<std::pair<uint16_t, bool>> dummy;
	if (vf::group("infinity_or_nan_half"))
		for (unsigned b = 0; b < 65536; b++)
		{
			if (!mine_()) continue;
			vf::at(int(b));
			vf::state(1);
			const bool want = (b & 0x7C00) == 0x7C00;
			VF_CHECK(infinity_or_nan(half::from_bits(uint16_t(b))) == want, "half");
#if MUU_HAS_FLOAT16
			_Float16 f;
			uint16_t u = uint16_t(b);
			asm volatile("" : "+m"(u));
			memcpy(&f, &u, 2);
			VF_CHECK(infinity_or_nan(f) == want, "_Float16");
#endif
		}
	if (vf::group("infinity_or_nan_float_all"))
	{
		// every sign and exponent, with the significand patterns that matter
		for (unsigned e = 0; e < 512; e++)
			for (unsigned m = 0; m < 26; m++)
			{
				if (!mine_()) continue;
				vf::at(int(e), int(m));
				vf::state(1);
				uint32_t u = (e << 23) | (m == 0 ? 0u : m <= 23 ? 1u << (m - 1) : m == 24 ? 0x7FFFFFu : 0x400001u);
				asm volatile("" : "+m"(u));
				float f;
				memcpy(&f, &u, 4);
				VF_CHECK(infinity_or_nan(f) == ((e & 255) == 255), "float %08x", u);
			}
		for (unsigned e = 0; e < 4096; e++)
			for (unsigned m = 0; m < 55; m++)
			{
				if (!mine_()) continue;
				vf::at(int(e), int(m), 64);
				vf::state(1);
				uint64_t u = (uint64_t(e) << 52) | (m == 0 ? 0u : m <= 52 ? uint64_t(1) << (m - 1) : m == 53 ? 0xFFFFFFFFFFFFFull : 0x8000000000001ull);
				asm volatile("" : "+m"(u));
				double f;
				memcpy(&f, &u, 8);
				VF_CHECK(infinity_or_nan(f) == ((e & 2047) == 2047), "double %016llx", (unsigned long long)u);
			}
		for (unsigned e = 0; e < 65536; e++)
			for (unsigned m = 0; m < 4; m++)
			{
				if (!mine_()) continue;
				vf::at(int(e), int(m), 80);
				vf::state(1);
				// long double: explicit integer bit set except for zero / denormals
				struct { uint64_t m; uint16_t e; uint16_t pad[3]; } raw{ (m == 0 ? 0 : m == 1 ? 1 : m == 2 ? uint64_t(1) << 62 : (uint64_t(1) << 63) - 1) | ((e & 0x7FFF) ? uint64_t(1) << 63 : 0), uint16_t(e), {} };
				long double f = 0;
				asm volatile("" : "+m"(raw));
				memcpy(&f, &raw, 10);
				VF_CHECK(infinity_or_nan(f) == ((e & 0x7FFF) == 0x7FFF), "long double e=%x m=%u", e, m);
#if MUU_HAS_FLOAT128
				unsigned __int128 q = (unsigned __int128)(e) << 112;
				if (m == 1) q |= 1;
				if (m == 2) q |= (unsigned __int128)1 << 111;
				if (m == 3) q |= ((unsigned __int128)1 << 112) - 1;
				asm volatile("" : "+m"(q));
				__float128 g;
				memcpy(&g, &q, 16);
				VF_CHECK(infinity_or_nan(g) == ((e & 0x7FFF) == 0x7FFF), "float128 e=%x m=%u", e, m);
#endif
			}
	}
	inf_nan<float, uint32_t>("infinity_or_nan_forms_float", { { 0x7F800000u, true }, { 0xFF800000u, true }, { 0x7FC00000u, true }, { 0x7F800001u, true }, { 0x7F7FFFFFu, false }, { 1u, false }, { 0x80000000u, false } });
	inf_nan<double, uint64_t>("infinity_or_nan_forms_double", { { 0x7FF0000000000000u, true }, { 0xFFF0000000000000u, true }, { 0x7FF8000000000000u, true }, { 0x7FF0000000000001u, true }, { 0x7FEFFFFFFFFFFFFFu, false }, { 1u, false } });
}
// approx_equal / approx_zero / lerp -----------------------------------------------------------------------------------
template <class T> static void approx(int tag)
{
	if (!vf::group("approx")) return;
	static const double v[] = { -1000, -2, -1, -0.5, -0.125, -0.0009765625, 0, 0.000030517578125, 0.0009765625, 0.125, 0.375, 0.5, 1, 1.5, 2, 1000 };
	static const double ep[] = { 0, 0.0009765625, 0.125, 0.5, 1, 2.5, 2000 };
	for (size_t i = 0; i < 16; i++)
		for (size_t j = 0; j < 16; j++)
		{
			if (!mine_()) continue;
			vf::at(tag, int(i), int(j));
			const T a = static_cast<T>(v[i]), b = static_cast<T>(v[j]);
			const Q d = qabs(Q(a) - Q(b));
			vf::state(1);
			for (double e : ep)
			{
				const T te = static_cast<T>(e);
				// exactly at the boundary either answer is acceptable; so is rounding of the difference in 16-bit types
				const Q s = narrow<T> ? eps_of<T>() * d : 0;
				if (d + s < Q(te)) { VF_CHECK(approx_equal(a, b, te), "approx_equal(%g, %g, %g) is false", v[i], v[j], e); }
				if (d - s > Q(te)) { VF_CHECK(!approx_equal(a, b, te), "approx_equal(%g, %g, %g) is true", v[i], v[j], e); }
				VF_CHECK(approx_zero(a, te) == approx_equal(a, T{}, te), "approx_zero(%g, %g)", v[i], e);
			}
			const Q de = Q(default_epsilon<T>);
			if (d < de / 2) { VF_CHECK(approx_equal(a, b), "default epsilon"); }
			if (d > de * 2) { VF_CHECK(!approx_equal(a, b), "default epsilon"); }
			VF_CHECK(approx_equal(a, b) == approx_equal(b, a), "symmetric");
			VF_CHECK(approx_zero(a) == approx_equal(a, T{}), "approx_zero default");
			for (int k = -8; k <= 24; k++)
			{
				const T al = static_cast<T>(k / 16.0);
				const Q want = Q(a) * (1 - Q(al)) + Q(b) * Q(al);
				const T got = muu::lerp(a, b, al);
				const Q mag = (qabs(Q(a)) + qabs(Q(b))) * (1 + qabs(Q(al))) * 2;
				VF_CHECK(qabs(Q(got) - want) <= 2 * eps_of<T>() * mag, "lerp(%g, %g, %g) = %s", v[i], v[j], k / 16.0, show(Q(got)));
				if (k == 0) { VF_CHECK(got == a, "lerp at 0"); }
				if (k == 16) { VF_CHECK(got == b, "lerp at 1"); }
				constexpr T c = muu::lerp(static_cast<T>(2), static_cast<T>(4), static_cast<T>(0.5));
				VF_CHECK(c == static_cast<T>(3), "constexpr lerp");
			}
		}
}
// integers -----------------------------------------------------------------------------------------------------------
template <class I> static I g2(I a, I b) { if (a < 0) a = I(-a); if (b < 0) b = I(-b); while (b) { I t = I(a % b); a = b; b = t; } return a; }
template <class I> static I l2(I a, I b) { if (!a || !b) return 0; I g = g2(a, b); if (a < 0) a = I(-a); if (b < 0) b = I(-b); return I(a / g * b); }
template <class I> static void lcmgcd(const char* name)
{
	if (!vf::group(name)) return;
	const int lo = std::is_signed_v<I> ? -6 : 0, hi = 12;
	for (int a = lo; a <= hi; a++)
		for (int b = lo; b <= hi; b++)
			for (int c = lo; c <= hi; c++)
			{
				if (!mine_()) continue;
				for (int d = lo; d <= hi; d++)
				{
					vf::at(a, b, c, d);
					vf::state(1);
					const I A = I(a), B = I(b), C = I(c), D = I(d), E = I(7), F = I(4);
					const I l_2 = l2<I>(A, B), l_3 = l2<I>(l_2, C), l_4 = l2<I>(l_3, D), l_5 = l2<I>(l_4, E), l_6 = l2<I>(l_5, F);
					const I g_2 = g2<I>(A, B), g_3 = g2<I>(g_2, C), g_4 = g2<I>(g_3, D), g_5 = g2<I>(g_4, E), g_6 = g2<I>(g_5, F);
					VF_CHECK(muu::lcm(A, B) == l_2 && muu::lcm(A, B, C) == l_3 && muu::lcm(A, B, C, D) == l_4 && muu::lcm(A, B, C, D, E) == l_5 && muu::lcm(A, B, C, D, E, F) == l_6, "lcm");
					VF_CHECK(muu::gcd(A, B) == g_2 && muu::gcd(A, B, C) == g_3 && muu::gcd(A, B, C, D) == g_4 && muu::gcd(A, B, C, D, E) == g_5 && muu::gcd(A, B, C, D, E, F) == g_6, "gcd");
				}
			}
}
template <class I> static void distribute(const char* name)
{
	if (!vf::group(name)) return;
	const unsigned nt = vf::thorough ? 600 : 255;
	for (unsigned t = 0; t <= (sizeof(I) == 1 ? 255 : nt); t++)
	{
		if (!mine_()) continue;
		for (unsigned n = 1; n <= 255; n++)
		{
			vf::at(int(t), int(n));
			vf::state(1);
			uint64_t sum = 0;
			I prev = I(-1), first = 0;
			for (unsigned i = 0; i < n; i++)
			{
				const I v = muu::evenly_distribute(I(t), I(n), I(i));
				if (i == 0) first = v;
				VF_CHECK(i == 0 || v <= prev, "bucket %u is bigger than its predecessor", i);
				VF_CHECK(I(first - v) <= 1, "buckets differ by more than one");
				prev = v;
				sum += v;
			}
			VF_CHECK(sum == t, "buckets add up to %llu", (unsigned long long)sum);
		}
	}
	// the largest totals
	for (unsigned k = 0; k < 4; k++)
		for (unsigned n = 1; n <= 255; n++)
		{
			if (!mine_()) continue;
			vf::at(1000 + int(k), int(n));
			vf::state(1);
			const I t = I(I(-1) - I(k));
			unsigned __int128 sum = 0;
			for (unsigned i = 0; i < n; i++) sum += muu::evenly_distribute(t, I(n), I(i));
			VF_CHECK(sum == t, "buckets of a huge total");
		}
}
int main(int argc, char** argv)
{
	vf::init(argc, argv);
	const std::string part = vf::args.empty() ? "all" : vf::args[0];
	if (part == "infnan") { inf_nans(); return vf::finish(); }
	types<float>(4);
	types<double>(8);
	types<long double>(10);
#if MUU_HAS_FLOAT128
	types<__float128>(16);
#endif
#if MUU_HAS_FLOAT16
	types<_Float16>(2);
#endif
	wide<float>(4);
	wide<double>(8);
	wide<long double>(10);
	atan2s<float>(4);
	atan2s<double>(8);
	atan2s<long double>(10);
#if MUU_HAS_FLOAT128
	atan2s<__float128>(16);
#endif
	atan2_int();
	ints<int>("int");
	ints<unsigned>("unsigned");
	ints<signed char>("schar");
	ints<unsigned char>("uchar");
	ints<short>("short");
	ints<unsigned short>("ushort");
	ints<long>("long");
	ints<unsigned long>("ulong");
	ints<long long>("llong");
	ints<unsigned long long>("ullong");
	angles<float>(4);
	angles<double>(8);
	angles<long double>(10);
#if MUU_HAS_FLOAT128
	angles<__float128>(16);
#endif
#if MUU_HAS_FLOAT16
	angles<_Float16>(2);
#endif
	inf_nans();
	approx<float>(4);
	approx<double>(8);
	approx<long double>(10);
	approx<half>(3);
#if MUU_HAS_FLOAT128
	approx<__float128>(16);
#endif
#if MUU_HAS_FLOAT16
	approx<_Float16>(2);
#endif
	lcmgcd<int>("lcmgcd_int");
	lcmgcd<unsigned>("lcmgcd_unsigned");
	lcmgcd<long long>("lcmgcd_llong");
	lcmgcd<uint64_t>("lcmgcd_u64");
	distribute<uint8_t>("distribute_u8");
	distribute<uint16_t>("distribute_u16");
	distribute<uint32_t>("distribute_u32");
	distribute<uint64_t>("distribute_u64");
	return vf::finish();
}
